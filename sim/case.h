// One delivery of a packet to a verifier.
#pragma once
#include "api.h"
struct Case { int kind; const u8*sm; u64 n; const u8*pk; const u8*m; u64 ml; bool expect; const u8*em; u64 eml; char desc[256]; bool lax; };
struct World { std::vector<Packet> seen; const Key*k; int mode; Packet a; };
// prepares keys and packets for one run; sel selects the mode mix
void world_packets(World&w,int mode,bool lib_signs);
Case gen_case(World&w,u64 i,u64 K);                 // draws one delivery
void case_op(Op&o,const Case&c,u64 garbage);        // builds the library call with exact private copies of all inputs
int pick_mode();
