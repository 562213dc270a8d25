/* Runs an action in a child process of its own and tells how it ended. */
#ifndef CHILD_H
#define CHILD_H
#include "vf.h"
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
/* 0..: what the action returned (1: a failing result; 3: a failing result that left heap blocks); 1 also if it
   aborted; 100+n: ended by signal n */
static int child_run(int (*f)(void*), void *x, int leak)
{
	pid_t c=fork(); if(c<0) vf_fail("fork failed");
	if(!c)
	{
		int fd=open("/dev/null",O_WRONLY); dup2(fd,1); dup2(fd,2); for(int s=1;s<32;s++) signal(s,SIG_DFL); alarm(60);
		int r=f(x); if(leak && r==1 && vf_heap_live()) r=3; _exit(r);
	}
	int st; if(waitpid(c,&st,0)!=c) vf_fail("waitpid failed");
	if(WIFSIGNALED(st)) return WTERMSIG(st)==SIGABRT?1:100+WTERMSIG(st);
	return WEXITSTATUS(st);
}
#endif
