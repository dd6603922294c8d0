/* Native runtime of a harness: reads the tape, runs one harness function, reports failed checks. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <pthread.h>
#include "cv.h"
uint64_t cv_tape[CV_TAPE_MAX];
unsigned cv_tape_n;
static unsigned tape_len;
static int failed;
static jmp_buf stopbuf;
static uint64_t rng;
extern volatile pthread_t GVLOwner;
uint64_t cv_u64(void) {
    uint64_t v = 0;
    if (rng) {
        rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
        uint64_t r = rng * 2685821657736338717ULL;
        static const uint64_t pool[] = { 0, 1, 2, 3, 4, 5, 8, ~0ull, ~1ull, 0x3ff0000000000000ull, 0x8000000000000000ull,
            0x7ff8000000000000ull, 0x7ff0000000000000ull, 0x4000000000000000ull, 0xbff0000000000000ull,
            0x7ffc000000000001ull, 0x7ffc000000000002ull, 0x7ffc000000000003ull, 0x4008000000000000ull };
        switch (r >> 60) {
        case 0: case 1: case 2: case 3: case 4: case 5: case 6: v = (r >> 8) % 6; break;
        case 7: case 8: case 9: case 10: v = pool[(r >> 8) % (sizeof pool / sizeof *pool)]; break;
        case 11: v = (r >> 4) & 0xff; break;
        default: v = r * 0x9e3779b97f4a7c15ull; break;
        }
        if (cv_tape_n < CV_TAPE_MAX) cv_tape[cv_tape_n] = v;
    } else if (cv_tape_n < tape_len) v = cv_tape[cv_tape_n];
    cv_tape_n++;
    return v;
}
void cv_infeasible(const char *what) {
    if (failed) exit(1);
    printf("CV-INFEASIBLE %s\n", what); fflush(stdout); _exit(77);
}
void cv_fail(const char *label) { printf("CV-FAIL %s\n", label); fflush(stdout); failed = 1; }
void cv_reached(const char *label) { printf("CV-REACH %s\n", label); }
void cv_stop(void) { longjmp(stopbuf, 1); }
void CV_ENTRY(void);
int main(int argc, char **argv) {
    setvbuf(stdout, NULL, _IOLBF, 0);
    GVLOwner = pthread_self();
    alarm(60);
    if (argc > 2 && !strcmp(argv[1], "-r")) rng = strtoull(argv[2], 0, 0) * 0x9e3779b97f4a7c15ull + 1;
    else if (argc > 1) {
        FILE *f = fopen(argv[1], "r");
        if (!f) { perror(argv[1]); return 2; }
        unsigned long long v;
        while (tape_len < CV_TAPE_MAX && fscanf(f, "%llu", &v) == 1) cv_tape[tape_len++] = v;
        fclose(f);
    }
    if (!setjmp(stopbuf)) CV_ENTRY();
    if (failed) {
        printf("tape:");
        for (unsigned i = 0; i < cv_tape_n && i < CV_TAPE_MAX; i++) printf(" %llu", (unsigned long long)cv_tape[i]);
        printf("\n");
        return 1;
    }
    return 0;
}
