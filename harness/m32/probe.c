/* exits with 0 if this kernel runs 32-bit executables the way the m32 build needs */
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
int main(void)
{
	volatile long *p=mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); int st;
	if(p==MAP_FAILED) return 1;
	pid_t c=fork(); if(c<0) return 2;
	if(!c){ *p=42; _exit(7); }
	if(waitpid(c,&st,0)!=c||!WIFEXITED(st)||WEXITSTATUS(st)!=7||*p!=42) return 3;
	return sizeof(void*)==4?0:4;
}
