// Generated once by an independent Keccak (checked with hashlib): {rate, domain byte (0: output tail), d, first/last 16 bytes}. Input: 2^32+d zero bytes. Tail: output bytes 2^32+d-16 onwards of the empty SHAKE input.
struct VastRow { unsigned r; int p; int d; unsigned long long a,b; };
static const VastRow VAST[]={
{168,6,0,0x2416719c9aae1a8bull,0x1f9a62ea74003abfull},
{168,31,0,0xc5586b60f8ad8fcdull,0xadfd96df7633c0faull},
{168,6,1,0xc189ba6d6aebf68aull,0x430d744036444cd2ull},
{168,31,1,0x22512368f7f38aecull,0x1523130f893935ecull},
{168,6,8,0x8e0be05feefe23a3ull,0xff03c143352dcd78ull},
{168,31,8,0xd52f1d8cd26d234full,0x90e1c9ed4e14dc35ull},
{168,6,137,0x9897aed2904e1932ull,0x44b88bff31c5dbf8ull},
{168,31,137,0x68490c6ff3a74508ull,0xc1f1b10c374e3514ull},
{168,6,300,0x851e145c73683d3full,0x869b290faf61fa6cull},
{168,31,300,0x02d68c9ea145401aull,0xc95adbb7fc96b3a5ull},
{136,6,0,0x2c33033f0ab4be41ull,0xb351e7c83ef3d755ull},
{136,31,0,0x15305dabe7527e0cull,0x75ffc4aa4dc8f805ull},
{136,6,1,0x974a84d25f591f38ull,0x06c2d850c2a38047ull},
{136,31,1,0xdec98ef67d4954e8ull,0xb34d097d284aa1fcull},
{136,6,8,0xe7505d77f8adfb74ull,0xc7a3889b6c667170ull},
{136,31,8,0x3070152a566dab21ull,0x0c52d779f7cd8e24ull},
{136,6,137,0x56f63a00104889ecull,0x6bb7d25994353296ull},
{136,31,137,0x8d8fcc888a4b8b55ull,0xad760280e32e6749ull},
{136,6,300,0x340b4fab009ed698ull,0xf07bd041c825418aull},
{136,31,300,0x48e4659590c3b154ull,0x8674c12db76e74b7ull},
{104,6,0,0xa352baa4a20be822ull,0xe0bc3c806b25ba51ull},
{104,31,0,0xb8ab4fdcb78dd401ull,0x2f405e1c181ed9f9ull},
{104,6,1,0x0f3d599a73f7ee46ull,0xf624c062d82caed7ull},
{104,31,1,0x7512cdd1fc6cd1afull,0x498546f0cd7287a8ull},
{104,6,8,0xc9ba2efb8421f268ull,0xc0eb0ace12c25e3bull},
{104,31,8,0xa4ef81f0456d79dcull,0xce459849fddea1fbull},
{104,6,137,0x4a1517d40babf9c3ull,0xb4bba04779424c0full},
{104,31,137,0xb53db1c0e5df6cc5ull,0xc2ef8945b15e55ffull},
{104,6,300,0x67de9461864ac6deull,0x93d8e29aadeec7cbull},
{104,31,300,0x515205c6fb481cffull,0xf9f8c1c7215997daull},
{72,6,0,0x5bf05140e8a3f7c3ull,0x59c5de3e34518612ull},
{72,31,0,0x77994b203060250eull,0x08cfbf9579496ce6ull},
{72,6,1,0xb2249a487f669097ull,0x72a51f2687695ee4ull},
{72,31,1,0x7ca2923e98115e49ull,0x816dc39500b5410dull},
{72,6,8,0xeff84b901fe44a37ull,0xd1ff4569141cc4b5ull},
{72,31,8,0x4e0816da258b4840ull,0xc4e1fb859cc53fe1ull},
{72,6,137,0xf41bb27998194463ull,0x56e06a7b21b9aa9cull},
{72,31,137,0xbe896f118682ac7dull,0x1e293eeeacdb7ec2ull},
{72,6,300,0xf80c68f1e9d5f2dbull,0xe49ab2bce8b94d44ull},
{72,31,300,0xf391dcaf115e5b01ull,0x9d9484277ccb51eaull},
{168,0,0,0x00f2ca23837cea5bull,0x92e0db3a7eb5b120ull},
{168,0,1,0x2000f2ca23837ceaull,0x4992e0db3a7eb5b1ull},
{168,0,8,0x92e0db3a7eb5b120ull,0xb66ae23657328f49ull},
{168,0,137,0xeb484ed78b41c128ull,0xc8c6bb115b510f98ull},
{168,0,300,0xdb9863ebb7468676ull,0xf7de9941033ca08full},
{136,0,0,0x3f43561fa0f8e797ull,0x535855de21c3b9e1ull},
{136,0,1,0xe13f43561fa0f8e7ull,0xaf535855de21c3b9ull},
{136,0,8,0x535855de21c3b9e1ull,0x708f13b9de770cafull},
{136,0,137,0x0f1bdd3699dcdff5ull,0x6b6f3aa2264d3b50ull},
{136,0,300,0x75818f7974005332ull,0x9bc3ce0e062a40ccull},
};
