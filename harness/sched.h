// Controlled scheduler: runs the threads of the process one at a time and
// decides at every synchronisation or file operation which thread continues.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <string>
#include <vector>
namespace sched {
// policy: off | rand | sticky | pct<d> | starve | eager | rr ; suffix "+spur" adds spurious wake-ups
void start(const std::string& policy, unsigned seed);
void stop();                    // back to normal scheduling
void freeze(bool on);           // while on, only the main thread runs, until it blocks
bool frozen_main_blocked();     // the main thread was blocked while frozen
int alive();                    // threads created by the process and not yet finished
unsigned long steps();
unsigned long created();
extern int nproc_override;      // >0: reported number of processors
extern void (*on_stuck)(const char* kind);  // called (no return expected) on deadlock / livelock
// Faults: operations of one kind ('w' or 'r') on files of which isTarget holds are counted; number fault_at (from 1), and
// with fault_persist all after it, is refused with fault_errno; fault_partial: a part is written before. fault_short:
// every operation handles at most that many bytes (which is no error). With kinds 'k' (writes) and 'j' (reads) the
// process ends at operation number fault_at.
extern bool (*fault_target)(int fd);
extern char fault_kind;
extern long fault_at;
extern bool fault_persist, fault_partial;
extern int fault_part;        // when the process is to end: 0 before, 1 halfway, 2 after the operation
extern int fault_errno;
extern long fault_short;
extern unsigned long fault_writes, fault_reads, fault_injected;
extern unsigned long file_ops;
extern unsigned long max_steps;
std::string schedule_text();    // the choices made so far (thread numbers), for replay
}
#endif
