#ifndef SIM_H
#define SIM_H
#include <stddef.h>
/* services of the simulator used by the per-rank driver */
int sim_rank(void);
int sim_np(void);
void sim_emit(const char *fmt, ...);          /* append to the trace (no newline added) */
unsigned sim_rand(void);
long sim_sent(void);                          /* point-to-point messages sent by this rank so far */
void sim_sent_reset(void);
int sim_sent_to(int dst);                     /* since last reset, by world rank of destination */
long sim_live_comms(void);                    /* communicators (other than world) this rank holds */
long sim_live_reqs(void);
long sim_live_bytes(void);
void *sim_malloc(size_t), *sim_calloc(size_t,size_t), *sim_realloc(void*,size_t); void sim_free(void*);
void sim_exit(int) __attribute__((noreturn));
void sim_heapcheck(void);
void sim_time_plan(int n, const double *d);   /* durations that successive pairs of clock readings will show */
const char *sim_program(void);                /* this rank's script text */
void sim_error(const char *what, const char *fmt, ...);
void sim_on_exit(void (*cb)(void));            /* called (without scheduling) if this rank stops the program */
void sim_pause(void);                         /* a scheduling point */
#endif
