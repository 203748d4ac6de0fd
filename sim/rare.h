// Inputs that drive lattice signing under two fixed keys through its rare paths: many rejected attempts, a rejection by the bound on
// c*t0, by one hint too many, signatures with exactly the permitted number of hints, with very few, or with a component without any.
// Found by offline search with the reference release; at most one in 15000 random inputs has such a path, the rarest one in 10^7.
#pragma once
static const u64 RARE_NONCE[]={ // compact mode: message 00..1f, nonce = 8 bytes little endian and 32 bytes a5
  3193280ull, // 60 attempts
  2247708ull, // 59 attempts
  278382ull, // 54 attempts
  4990810ull, // 53 attempts
  3151464ull, // 53 attempts
  1598924ull, // 53 attempts
  4927177ull, // 52 attempts
  4725107ull, // 52 attempts
  2992387ull, // 52 attempts
  2413723ull, // 52 attempts
  4084177ull, // 50 attempts
  2725832ull, // 50 attempts
  10040ull, // 36 attempts
  46047ull, // 36 attempts
  249070ull, // 40 attempts
  270398ull, // 40 attempts
  105677ull, // 44 attempts
  317274ull, // 44 attempts
  1072704ull, // 48 attempts
  1777553ull, // 48 attempts
  353ull, // 80 hints
  761ull, // 80 hints
  1028ull, // 80 hints
  1411ull, // 80 hints
  197ull, // 81 hints rejected
  712ull, // 81 hints rejected
  772ull, // 81 hints rejected
  943ull, // 81 hints rejected
  1917374ull, // component without hints
  5074700ull, // component without hints
  4561297ull, // many hints in one component
};
static const u64 RARE_MSG[]={ // bare messages: 8 bytes little endian and 24 bytes 5a
  304100ull, // 68 attempts
  4458052ull, // 59 attempts
  4814610ull, // 55 attempts
  194426ull, // 55 attempts
  5218421ull, // 54 attempts
  4548880ull, // 53 attempts
  3782807ull, // 53 attempts
  1125408ull, // 53 attempts
  808065ull, // 52 attempts
  653992ull, // 52 attempts
  33564ull, // 52 attempts
  4663638ull, // 50 attempts
  68757ull, // 36 attempts
  78114ull, // 36 attempts
  30827ull, // 40 attempts
  34365ull, // 40 attempts
  395096ull, // 44 attempts
  401669ull, // 44 attempts
  1151796ull, // 48 attempts
  1645603ull, // 48 attempts
  37ull, // 80 hints
  1144ull, // 80 hints
  1616ull, // 80 hints
  1943ull, // 80 hints
  435ull, // 81 hints rejected
  1766ull, // 81 hints rejected
  1797ull, // 81 hints rejected
  1941ull, // 81 hints rejected
  3459699ull, // component without hints
};
// under the second key, whose t0 is unusually large: a rejection by the bound on c*t0
static const u64 RARE_NONCE2[]={ 292718ull, 1990202ull, 3924782ull, 3553437ull, 4287745ull, 5255555ull };
static const u64 RARE_MSG2[]={ 135544ull, 4307319ull };
static inline u64 rare_pick(int mode,int key){ bool n=mode==1||mode==8; if(key) return n?RARE_NONCE2[draw(sizeof RARE_NONCE2/8,"rare")]:RARE_MSG2[draw(sizeof RARE_MSG2/8,"rare")]; return n?RARE_NONCE[draw(sizeof RARE_NONCE/8,"rare")]:RARE_MSG[draw(sizeof RARE_MSG/8,"rare")]; }
static inline void rare_message(u8*m,int mode,u64 x){ if(mode==1||mode==8) for(int i=0;i<32;i++) m[i]=(u8)i; else { memset(m,0x5a,32); memcpy(m,&x,8); } }
const Key* rare_key(int key);
void rare_sphincs(u8*m,u64 l,const Key*k,const Ent&e);
