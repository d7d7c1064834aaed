#define stdout 1
int main()
{
	__syscall(__syscall_close, 1);
	int c = fputc('a', stdout);
	return c == -1;
}
