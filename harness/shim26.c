/* Linked into the daemon under test (-Wl,--wrap): makes the peer of a chosen socket write vanish at that very moment.
   VH_GONE is a list of ordinals of writes to sockets; the write itself is the real one, so the kernel answers it.
   Each read from the device (a terminal) is reported with one octet on the descriptor VH_TAKEN.
   VH_CUT is a list of such ordinals at which a write that must not wait takes only some of its octets.
   VH_REFUSE is a list of ordinals of connections that are gone when they are accepted.
   With VH_SNDBUF accepted connections get send buffers of that size, so that they fill soon. */
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

ssize_t __real_write(int fd, const void *buf, size_t n);
ssize_t __real_send(int fd, const void *buf, size_t n, int flags);

static int listed(const char *name, int count) {
	char *s = getenv(name);

	while (s && *s) {
		if (strtol(s, &s, 10) == count) return 1;
		if (*s) s++;
	}
	return 0;
}

/* How many octets of a write to a socket are to be taken. */
static size_t taken(int fd, size_t n, int flags) {
	static int count = 0;
	struct stat st;

	if (fstat(fd, &st) != 0 || !S_ISSOCK(st.st_mode)) return n;
	count++;
	if (listed("VH_GONE", count)) shutdown(fd, SHUT_RDWR);
	if (listed("VH_CUT", count) && n > 1 && ((flags & MSG_DONTWAIT) || (fcntl(fd, F_GETFL) & O_NONBLOCK)))
		return count % 3 ? n / 2 : n - 1;
	return n;
}

ssize_t __wrap_write(int fd, const void *buf, size_t n) {
	return __real_write(fd, buf, taken(fd, n, 0));
}

ssize_t __wrap_send(int fd, const void *buf, size_t n, int flags) {
	return __real_send(fd, buf, taken(fd, n, flags), flags);
}

ssize_t __real_read(int fd, void *buf, size_t n);

ssize_t __wrap_read(int fd, void *buf, size_t n) {
	ssize_t res = __real_read(fd, buf, n);
	int saved = errno;
	char *s = getenv("VH_TAKEN");

	if (res > 0 && s && isatty(fd))
		__real_write(atoi(s), "t", 1);
	errno = saved;
	return res;
}

int __real_accept(int fd, struct sockaddr *a, socklen_t *n);

int __wrap_accept(int fd, struct sockaddr *a, socklen_t *n) {
	static int count = 0;
	int res = __real_accept(fd, a, n);
	char *s = getenv("VH_REFUSE");

	count += res >= 0;
	while (res >= 0 && s && *s) {
		if (strtol(s, &s, 10) == count) {
			close(res);
			errno = ECONNABORTED;
			return -1;
		}
		if (*s) s++;
	}
	s = getenv("VH_SNDBUF");

	if (res >= 0 && s && *s) {
		int size = atoi(s);
		setsockopt(res, SOL_SOCKET, SO_SNDBUF, &size, sizeof(size));
	}
	return res;
}

/* The daemon's clock runs SCALE times as fast. */
#include <poll.h>
#include <signal.h>
#include <sys/select.h>
#include <sys/time.h>
#include <time.h>
#define SCALE 1000

static struct timeval shorter(const struct timeval *t) {
	long long us = ((long long) t->tv_sec * 1000000 + t->tv_usec) / SCALE;
	struct timeval r;

	if (us == 0 && (t->tv_sec || t->tv_usec)) us = 1;
	r.tv_sec = us / 1000000;
	r.tv_usec = us % 1000000;
	return r;
}

int __real_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t);
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
	struct timeval s;

	if (t == NULL) return __real_select(n, r, w, e, NULL);
	s = shorter(t);
	return __real_select(n, r, w, e, &s);
}

int __real_poll(struct pollfd *fds, nfds_t n, int timeout);
int __wrap_poll(struct pollfd *fds, nfds_t n, int timeout) {
	return __real_poll(fds, n, timeout > 0 ? (timeout + SCALE - 1) / SCALE : timeout);
}

int __real_setsockopt(int fd, int level, int name, const void *val, socklen_t n);
int __wrap_setsockopt(int fd, int level, int name, const void *val, socklen_t n) {
	if (level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) && n == sizeof(struct timeval)) {
		struct timeval s = shorter(val);
		return __real_setsockopt(fd, level, name, &s, n);
	}
	return __real_setsockopt(fd, level, name, val, n);
}

int __real_clock_gettime(clockid_t c, struct timespec *t);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
	static struct timespec first[16];
	int res = __real_clock_gettime(c, t);
	long long ns;

	if (res || c < 0 || c >= 16) return res;
	if (!first[c].tv_sec && !first[c].tv_nsec) first[c] = *t;
	ns = ((long long) (t->tv_sec - first[c].tv_sec) * 1000000000 + (t->tv_nsec - first[c].tv_nsec)) * SCALE + first[c].tv_nsec;
	t->tv_sec = first[c].tv_sec + ns / 1000000000;
	t->tv_nsec = ns % 1000000000;
	return 0;
}

time_t __wrap_time(time_t *t) {
	struct timespec s;

	__wrap_clock_gettime(CLOCK_REALTIME, &s);
	if (t) *t = s.tv_sec;
	return s.tv_sec;
}

int __wrap_gettimeofday(struct timeval *t, void *z) {
	struct timespec s;

	__wrap_clock_gettime(CLOCK_REALTIME, &s);
	t->tv_sec = s.tv_sec;
	t->tv_usec = s.tv_nsec / 1000;
	return 0;
}

unsigned __wrap_alarm(unsigned seconds) {
	struct itimerval v = {{0, 0}, {seconds / SCALE, seconds % SCALE * (1000000 / SCALE)}};

	return setitimer(ITIMER_REAL, &v, &v) ? 0 : 0;
}

unsigned __wrap_sleep(unsigned seconds) {
	usleep(seconds * (1000000 / SCALE));
	return 0;
}
