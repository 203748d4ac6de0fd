import json
N={
"C01":"Seeded search over request lengths (1 byte to over 4 GiB), entropy-source configurations (glibc, raw system call, device files, Windows, BSD, WASI, JavaScript in a simulated browser or Node.js) and fault schedules of the simulated OS.",
"C02":"Seeded search over outage points during every entropy-consuming operation; results checked against the frozen reference fed with exactly the delivered bytes.",
"C03":"Seeded search over thread schedules, fork/snapshot resumption and crash points; each result checked against the bytes delivered during that call.",
"C04":"Seeded thread schedules with preemption at basic blocks, library calls and every access to writable static data; each call compared with the same call alone in its own process.",
"C05":"Every allocation site of each sampled call is failed at sampled occurrences, single and in bursts, in a fresh simulated process each.",
"C06":"Balance of memory, descriptors, streams and provider handles around each call over sampled outcomes and faults.",
"C07":"Simulated hostile channel: 17 damage kinds over packets, keys and claims; acceptance checked against the record of what was signed. Forgeries needing cryptanalysis are out of reach.",
"C08":"Seeded histories of signing, duplication, reordering, receiver crashes and restarts; exact message, length and packet length checked.",
"C09":"Seeded crash points, earlier-call histories, memory contents and schedules; every rederivation compared with the first one on a pristine simulated node.",
"C10":"Seeded malformed requests and damaged packets; output buffers and lengths compared before and after every refused call.",
"C11":"Simulated adversary holding all component keys but one; assembled packets must be rejected. Two known findings are listed.",
"C12":"Address-sanitised build under sampled damaged packets, arbitrary bytes, lengths, keys and seeds, with a step budget per call.",
"C13":"Seeded sessions over fragment sizes, output pieces, clones, many contexts and threads against an independent Keccak model.",
"C14":"Sampled single, paired and compensating damage over all byte positions of seeds and delivered entropy. One known finding is listed.",
"C15":"Mixed-build cluster: this build and the frozen reference release run the same seeded history and must agree byte for byte.",
"C16":"Simulated allocator inspects every byte when the binding gives a buffer back, over seeded allocation and release orders; native build of the binding, not Emscripten.",
"C17":"Simulated device-file kernel with seeded entropy-pool trajectories, interruptions and errors; bytes read before the 128-bit report are tracked.",
}
m={"version":1,"setup_cmd":"bash setup.sh","checks":[{"property":p,"quick_cmd":"bash check.sh %s"%p,"thorough_cmd":"VERIF_TIER=thorough bash check.sh %s"%p,"evidence_file":"evidence/%s.json"%p,"technique":"deterministic simulation with fault injection (seeded search over schedules and faults, exact replay)","level":"exploration","level_note":n+" Assumes clang -O2 code behaves like the shipped build; sampling, not exhaustive."} for p,n in N.items()],
"not_applicable":[{"property":"C18","reason":"Timing and micro-architectural leakage is a property of machine-code execution time, not of schedules or faults; a simulator that replaces time cannot observe it."},{"property":"C19","reason":"Conformance to the published algorithms and computational hardness depend on no concurrency, time, I/O or multi-party behaviour; simulation cannot decide them (exact agreement with the pinned release is claimed instead as C15, the Keccak functions as C13)."}],
"notes":"No hooks in /repo: all seams are taken at link time (objcopy symbol redirection) and by compiler instrumentation. See DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
