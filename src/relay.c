/*
 * Stands in for a helper program of stow: hands its standard descriptors to
 * the driver over the socket $MC_SOCK, and ends as the driver says.
 *
 * If $MC_SPEC is set and we are called mtree, it prints that file instead.
 */
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/un.h>

int
main(int argc, char **argv)
{
	struct sockaddr_un sa;
	struct msghdr mh;
	struct iovec iov;
	char c[CMSG_SPACE(3 * sizeof(int))], line[8192];
	struct cmsghdr *cm;
	int s, i, fds[3] = {0, 1, 2};
	const char *p;
	char *d;
	ssize_t n;
	unsigned char b;

	if (argc == 3 && !strcmp(argv[1], "cut")) {
		/* pass on so many bytes, each as it comes */
		long k = atol(argv[2]);
		while (k > 0) {
			n = read(0, line, k < (long)sizeof line ? k : (long)sizeof line);
			if (n <= 0)
				break;
			k -= n;
			for (d = line; n > 0; d += i, n -= i) {
				i = write(1, d, n);
				if (i <= 0)
					return (8);
			}
		}
		return (0);
	}
	p = getenv("MC_SPEC");
	if (p != NULL) {
		/* with a -p argument: <MC_SPEC>/<last part of it> */
		line[0] = '\0';
		for (i = 1; i + 1 < argc; i++)
			if (!strcmp(argv[i], "-p")) {
				d = strrchr(argv[i + 1], '/');
				snprintf(line, sizeof line, "%s%s", p, d);
			}
		s = open(line, O_RDONLY);
		if (s < 0)
			return (9);
		while ((n = read(s, line, sizeof line)) > 0) {
			for (d = line; n > 0;) {
				i = write(1, d, n);
				if (i <= 0)
					return (8);
				d += i;
				n -= i;
			}
		}
		return (n < 0 ? 7 : 0);
	}
	memset(&sa, 0, sizeof sa);
	sa.sun_family = AF_UNIX;
	strcpy(sa.sun_path, getenv("MC_SOCK"));
	s = socket(AF_UNIX, SOCK_STREAM, 0);
	if (s < 0 || connect(s, (void *)&sa, sizeof sa))
		return (9);
	line[0] = '\0';
	for (i = 0; i < argc; i++) {
		strncat(line, argv[i], 1000);
		strcat(line, "\1");
	}
	memset(&mh, 0, sizeof mh);
	iov.iov_base = line;
	iov.iov_len = strlen(line);
	mh.msg_iov = &iov;
	mh.msg_iovlen = 1;
	mh.msg_control = c;
	mh.msg_controllen = sizeof c;
	cm = CMSG_FIRSTHDR(&mh);
	cm->cmsg_level = SOL_SOCKET;
	cm->cmsg_type = SCM_RIGHTS;
	cm->cmsg_len = CMSG_LEN(sizeof fds);
	memcpy(CMSG_DATA(cm), fds, sizeof fds);
	if (sendmsg(s, &mh, 0) <= 0)
		return (9);
	close(0);
	close(1);
	close(2);
	if (read(s, &b, 1) != 1)
		return (9);
	if (b == 255)
		raise(SIGKILL);
	return (b);
}
