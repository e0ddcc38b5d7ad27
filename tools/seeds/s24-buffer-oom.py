PROP = 'C30'
FILE = 'buffer.c'
EDITS = [("""			buf->data = (char *)realloc(buf->data, new_size);

			if(!buf->data)
			{
				perror("realloc()");
				abort();
			}
		}
""", """			buf->data = (char *)realloc(buf->data, new_size);

			if(!buf->data)
			{
				perror("realloc()");
				buf->valid = false;
				return false;
			}
		}
""")]
NEEDS = 'realloc fails'
BREAKS = 'the program goes on with a buffer that has no memory'
CFLAGS = '-Wl,--wrap=realloc'
DEMO = r'''
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <signal.h>
#include <unistd.h>
#include <sys/wait.h>
#include "buffer.h"
void *__wrap_realloc(void *p, size_t n)
{
	return NULL;
}
int main(void)
{
	pid_t p = fork();
	if(!p)
	{
		Buffer b;
		char x[200] = {0};
		buffer_init(&b, 1000);
		buffer_fill(&b, x, 200);
		_exit(0);
	}
	int st;
	waitpid(p, &st, 0);
	return !(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT);
}
'''
