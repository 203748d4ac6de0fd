#include "kref.h"
static u64 rot(u64 x,int n){ n&=63; return n?(x<<n)|(x>>(64-n)):x; }
static void f1600(u64 A[5][5]){ // A[x][y], straight from FIPS 202
  u8 lf=1; for(int round=0;round<24;round++){ u64 C[5],D[5],B[5][5]; for(int x=0;x<5;x++) C[x]=A[x][0]^A[x][1]^A[x][2]^A[x][3]^A[x][4]; for(int x=0;x<5;x++) D[x]=C[(x+4)%5]^rot(C[(x+1)%5],1); for(int x=0;x<5;x++)for(int y=0;y<5;y++) A[x][y]^=D[x];
    B[0][0]=A[0][0]; int x=1,y=0; for(int t=0;t<24;t++){ u64 v=rot(A[x][y],(t+1)*(t+2)/2); int nx=y,ny=(2*x+3*y)%5; B[nx][ny]=v; x=nx; y=ny; }
    for(int a=0;a<5;a++)for(int b=0;b<5;b++) A[a][b]=B[a][b]^(~B[(a+1)%5][b]&B[(a+2)%5][b]);
    for(int j=0;j<7;j++){ if(lf&1) A[0][0]^=1ull<<((1<<j)-1); lf=(lf<<1)^((lf>>7)*0x71); } } }
void kref(u8*out,size_t ol,const u8*in,size_t il,unsigned r,u8 p){ u64 A[5][5]; memset(A,0,sizeof A); auto xb=[&](unsigned i,u8 v){ unsigned l=i/8; A[l%5][l/5]^=(u64)v<<(8*(i%8)); }; auto gb=[&](unsigned i){ unsigned l=i/8; return (u8)(A[l%5][l/5]>>(8*(i%8))); };
  unsigned pos=0; for(size_t i=0;i<il;i++){ xb(pos++,in[i]); if(pos==r){ f1600(A); pos=0; } } xb(pos,p); xb(r-1,0x80); f1600(A); pos=0; for(size_t i=0;i<ol;i++){ if(pos==r){ f1600(A); pos=0; } out[i]=gb(pos++); } }
