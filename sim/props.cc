#include "sim.h"
void scen_C01(); void scen_C02(); void scen_C03(); void scen_C17(); void scen_C07(); void scen_C10(); void scen_C11(); void scen_C12(); void scen_C15(); void scen_C04(); void scen_C05(); void scen_C06(); void scen_C08(); void scen_C09(); void scen_C13(); void scen_C14(); void scen_C16();
const char* REAL_COMPONENTS="all C sources of /repo (hybrid, dilithium2, sphincs, tweetnacl, common, random, wasm binding compiled natively; the JavaScript entropy fragment executed by node)";
const char* STUB_COMPONENTS="OS entropy sources, browser and Node.js cryptography objects, allocator, process exit, clocks, locks, channel, disk; reference release in /verif/ref as second node";
const PropDef PROPS[]={
 {"C01",scen_C01,400000,4000000,"a run is 1-4 random-byte requests of drawn length on one platform configuration under drawn interruptions, short reads and errors; non-trivial if at least one fault fired; distinct by event hash","fast",25},
 {"C02",scen_C02,200000,4000000,"a run is 1-5 entropy-consuming operations (keys, messages, memory contents drawn) under a drawn outage: error number, first failing call, bytes delivered before it, transient or persistent, then recovery; non-trivial if a fault fired; distinct by hash of all choices, events and outputs","fast",25},
 {"C03",scen_C03,200000,4000000,"a run is a history of entropy-consuming calls: in sequence, across fork/snapshot resumption, across crash and restart, or in 2-4 threads under a drawn schedule; non-trivial if more than one call shares a process image or a switch or fault happened; distinct by event and schedule hash","fast",25},
 {"C04",scen_C04,400000,4000000,"a run is 2-4 threads of 1-2 drawn calls sharing keys and packets under a drawn scheduling policy; non-trivial if a context switch happened; distinct by the sequence of (program point, from, to) switches and all outputs","mem",40},
 {"C05",scen_C05,400000,4000000,"a run is one drawn call executed clean and then 2-15 times with a drawn allocation (site and occurrence, index, or burst) failing; non-trivial if an allocation failed; distinct by event hash","fast",30},
 {"C06",scen_C06,400000,4000000,"a run is 1-8 calls with drawn outcome (success, rejection, malformed, outage) or 1-4 random-byte requests on the device-file or Windows source with drawn faults; distinct by event hash","fast",25},
 {"C08",scen_C08,400000,4000000,"a run signs 1-7 messages with a drawn key, delivers copies in drawn order to a receiver that crashes at drawn steps and restarts, then delivers each once more; distinct by event hash","fast",30},
 {"C09",scen_C09,400000,4000000,"a run derives a key once on a pristine node and then again in 1-3 lives with drawn earlier calls, memory contents, crash step or concurrent calls; distinct by event hash","fast",30},
 {"C13",scen_C13,400000,4000000,"a run is a session of drawn fragments, pieces, clones and interleaved contexts, threads hashing under a drawn schedule, or one seed-expander session; distinct by event and schedule hash","fast",20},
 {"C14",scen_C14,400000,4000000,"a run derives from one seed and from 4-10 (recovery seed: 24-60) drawn damages of it, or generates keys with one delivered entropy bit flipped; distinct by event hash","fast",25},
 {"C16",scen_C16,400000,4000000,"a run is 4-43 allocations, key derivations, signatures and releases through the binding in drawn order; distinct by event hash","fast",12},
 {"C07",scen_C07,200000,4000000,"a run is 2-14 deliveries over a channel that damages packet, key or claimed message in one of 17 ways; non-trivial if damage was injected; distinct by hash of choices and verdicts","fast",35},
 {"C10",scen_C10,200000,4000000,"a run is 2-12 calls, each a damaged delivery or a malformed request (missing buffer, bad length); non-trivial if a fault or malformed request was injected; distinct by event hash","fast",25},
 {"C11",scen_C11,200000,4000000,"a run is 2-8 packets assembled by an adversary lacking one component key, or from parts of the other mode; non-trivial if such a packet was delivered; distinct by event hash","fast",30},
 {"C12",scen_C12,200000,4000000,"a run is 1-6 calls with damaged or arbitrary bytes as packet, key, message or seed, of any length, in an address-sanitised build; distinct by event hash","asan",35},
 {"C15",scen_C15,200000,4000000,"a run is a history executed by this build and the reference release side by side (derivation, signing, relaying, damaged deliveries, out-of-range signers); distinct by event hash","fast",35},
 {"C17",scen_C17,400000,4000000,"a run is 1-3 requests on the device-file source under a drawn trajectory of the pool estimate, interruptions and errors; distinct by event hash","fast",20},
};
const int NPROPS=sizeof PROPS/sizeof*PROPS;
