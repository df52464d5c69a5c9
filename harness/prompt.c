/* Takes passwords from options and from typed lines.  The terminal's settings
 * are a stand-in; what is typed comes through a pipe as standard input.
 *   prompt SEED SCENARIOS OUT */
#define _GNU_SOURCE
#include <aerospike/as_password.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <termios.h>
#include <unistd.h>
#include <stdio_ext.h>
#include "vh.h"

static volatile int echo;
static volatile int echo_typing;

int
__wrap_tcgetattr(int fd, struct termios* t)
{
	memset(t, 0, sizeof(*t));
	t->c_lflag = echo ? ECHO : 0;
	return 0;
}

int
__wrap_tcsetattr(int fd, int how, const struct termios* t)
{
	echo = (t->c_lflag & ECHO) != 0;
	return 0;
}

/* Types once the program waits for it. */
static uint8_t typed[512];
static uint32_t n_typed;
static int to;
static int main_id;

static int
waiting(void)
{
	char name[64], line[512];
	snprintf(name, sizeof(name), "/proc/self/task/%d/stat", main_id);
	FILE* f = fopen(name, "r");
	if (! f || ! fgets(line, sizeof(line), f)) MISUSE("stat\n");
	fclose(f);
	char* p = strrchr(line, ')');
	return p && p[2] == 'S';
}

static void*
typist(void* ud)
{
	for (int still = 0; still < 3; ) {
		usleep(300);
		still = waiting() ? still + 1 : 0;
	}
	echo_typing = echo;
	if (n_typed && write(to, typed, n_typed) != n_typed) MISUSE("write\n");
	close(to);
	return NULL;
}

static void
source(uint8_t* b, uint32_t n)
{
	for (uint32_t k = 0; k < n; k++) {
		b[k] = vh_chance(12) ? '\n' : vh_chance(4) ? 0 : vh_chance(5) ? 13 : (uint8_t)(vh_chance(70) ? 33 + vh_below(90) : 1 + vh_below(255));
	}
}

int
main(int argc, char** argv)
{
	main_id = (int)syscall(SYS_gettid);
	vh_seed(strtoull(argv[1], NULL, 10));
	vh_open(argv[3]);
	FILE* nul = freopen("/dev/null", "w", stdout);
	if (! nul) MISUSE("stdout\n");
	for (int sc = atoi(argv[2]); sc > 0; sc--) {
		int p[2];
		if (pipe(p) || dup2(p[0], 0) != 0) MISUSE("pipe\n");
		close(p[0]);
		to = p[1];
		__fpurge(stdin);
		clearerr(stdin);
		echo = 1;
		echo_typing = 7;
		n_typed = vh_chance(10) ? 0 : vh_chance(50) ? 1 + vh_below(12) : 1 + vh_below(200);
		source(typed, n_typed);
		if (n_typed && vh_chance(10)) typed[0] = 0;
		if (n_typed && vh_chance(40)) typed[n_typed - 1] = '\n';
		evp("{\"o\":\"init\",");
		evbytes("t", typed, n_typed);
		ev("}");
		int asked = 0;
		uint32_t at = 0;
		pthread_t th;
		for (int k = 1 + vh_below(6); k > 0; k--) {
			char given[128];
			int have = vh_below(10);	/* none, empty, or one */
			uint32_t gl = vh_chance(70) ? 1 + vh_below(12) : 50 + vh_below(40);
			for (uint32_t j = 0; j < gl; j++) given[j] = (char)(33 + vh_below(90));
			given[have < 6 ? 0 : gl] = 0;
			int size = vh_chance(60) ? 2 + vh_below(16) : 17 + vh_below(120);
			int hashed = vh_chance(3);
			if (have < 6 && ! asked) {
				asked = 1;
				if (pthread_create(&th, NULL, typist, NULL)) MISUSE("thread\n");
			}
			char line[600];
			uint32_t room = (uint32_t)(hashed ? AS_PASSWORD_HASH_SIZE : size) - 1, n = 0;
			if (have >= 6) { strcpy(line, given); n = (uint32_t)strlen(line); if (n > room) n = room; }
			else {
				while (n < room && at < n_typed) { line[n++] = (char)typed[at++]; if (line[n - 1] == '\n') break; }
				if (n && line[n - 1] == '\n') n--;
			}
			line[n] = 0;
			char* src = have < 3 ? NULL : strdup(given);
			if (hashed) {
				/* the same as the hash of the password it must be */
				char* h = malloc(AS_PASSWORD_HASH_SIZE);
				int r = as_password_prompt_hash(src, h);
				evp("{\"o\":\"hash\",\"r\":%d,\"size\":%d,", r, AS_PASSWORD_HASH_SIZE);
				evbytes("h", (uint8_t*)h, strlen(h));
				/* a password and its hash, to be compared with */
				as_password_gen_hash(line, "$2a$10$7EqJtq98hPqEX7fNZaFWoO", h);
				evp(",");
				evbytes("cp", (uint8_t*)line, strlen(line));
				evp(",");
				evbytes("ch", (uint8_t*)h, strlen(h));
				free(h);
			}
			else {
				char* out = malloc((size_t)size);
				memset(out, 'Z', (size_t)size);
				as_password_acquire(out, src, size);
				int z = memchr(out, 0, (size_t)size) != NULL;
				evp("{\"o\":\"ask\",\"size\":%d,\"z\":%d,", size, z);
				evbytes("p", (uint8_t*)out, z ? strlen(out) : 0);
				free(out);
			}
			evp(",\"g\":%d,", have >= 6);
			evbytes("s", (uint8_t*)given, strlen(given));
			ev(",\"e\":%d,\"et\":%d}", echo, asked ? echo_typing : 7);
			free(src);
		}
		if (asked) pthread_join(th, NULL);
		else close(to);
	}
	vh_close();
	return 0;
}
