#define EMSCRIPTEN_KEEPALIVE __attribute__((visibility("default")))
