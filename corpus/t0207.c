#define stdout 1
int main()
{
	int c = fputc('a', stdout);
	printf("written = %c", c);
	return 0;
}
