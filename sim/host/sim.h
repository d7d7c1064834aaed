/* Force-included in front of the compiler's sources: every library call through
 * which nondeterminism or failure could enter is redirected to the simulator
 * (simrt.c).  Nothing here names anything inside the compiler itself. */
#ifndef SIM_H
#define SIM_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <sys/types.h>

void *sim_malloc(size_t n);
void *sim_calloc(size_t n, size_t m);
void *sim_realloc(void *p, size_t n);
void sim_free(void *p);
char *sim_strdup(const char *s);
FILE *sim_fopen(const char *path, const char *mode);
int sim_open(const char *path, int flags, ...);
int sim_creat(const char *path, mode_t m);
ssize_t sim_read(int fd, void *b, size_t n);
ssize_t sim_write(int fd, const void *b, size_t n);
int sim_close(int fd);
int sim_remove(const char *path);
int sim_rename(const char *a, const char *b);
int sim_access(const char *p, int m);
int sim_chmod(const char *p, mode_t m);
void sim_exit(int code) __attribute__((noreturn));
void sim__exit(int code) __attribute__((noreturn));
void sim_abort(void) __attribute__((noreturn));
int sim_rand(void);
void sim_srand(unsigned s);
char *sim_getenv(const char *n);

#define malloc sim_malloc
#define calloc sim_calloc
#define realloc sim_realloc
#define free sim_free
#undef strdup
#define strdup sim_strdup
#define fopen sim_fopen
#define open sim_open
#define read sim_read
#define write sim_write
#define close sim_close
#define creat sim_creat
#define remove sim_remove
#define unlink sim_remove
#define rename sim_rename
#define access sim_access
#define chmod sim_chmod
#define exit sim_exit
#define _exit sim__exit
#define _Exit sim__exit
#define abort sim_abort
#define time sim_time
#define rand sim_rand
#define random sim_rand
#define srand sim_srand
#define srandom sim_srand
#define getenv sim_getenv
#define getpid sim_getpid
#define clock sim_clock
#define gettimeofday sim_gettimeofday
#endif
