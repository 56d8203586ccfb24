/*
	A stateless explicit model checker for C code.

	A scenario function is executed again and again; every nondeterministic
	decision it takes goes through mc_choose(), and the explorer enumerates ALL
	sequences of decisions by depth-first search. Executions are distributed over
	worker processes. A failed check, a crash, a sanitizer report or a hang of one
	execution is a violation, identified by its decision sequence, and can be
	replayed from that sequence.
*/
#ifndef MC_H
#define MC_H

#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

extern int mc_thorough;		// exploring with the larger bounds?
extern int mc_noting;		// is the description of this execution wanted?

// The scenario to explore (provided by each harness)
extern const char* mc_property;
extern void mc_run(void);
// Called once in every worker before anything is explored (may be NULL)
extern void (*mc_worker_init)(void);

// Returns 0..n-1; every value is explored
int mc_choose(int n);
// Everything above this point has been decided: split work here.
// Must be called before anything is allocated.
void mc_shard(void);
// Abandon this execution (not counted; nothing may have been allocated)
void mc_prune(void);
// Count a transition (one operation on the implementation)
void mc_ops(unsigned n);
// Count comparisons between the model and the implementation
void mc_checks(unsigned n);
// Record a reached (observable) state
void mc_state(uint64_t hash);
// Describe the current execution
void mc_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Report a violation
void mc_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
// An error of the harness itself (not of libloc)
void mc_abort(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));

#define mc_assert(cond, ...) do { mc_checks(1); if (!(cond)) mc_fail(__VA_ARGS__); } while (0)

uint64_t mc_hash(uint64_t h, const void* data, size_t length);
#define MC_HASH_INIT 0xcbf29ce484222325ULL

#endif
