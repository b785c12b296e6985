// Sizes around the powers of two at which counters wrap and buffers fill
#pragma once
static size_t size_up_to(size_t max) { static const size_t S[] = {15, 16, 17, 31, 32, 33, 57, 63, 64, 65, 76, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537}; uint32_t n = 0; while (n < sizeof S / sizeof *S && S[n] <= max) ++n; return S[sx_choose(n, "size")]; }
