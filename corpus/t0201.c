int main()
{
    __syscall(__syscall_close, 1);
    int written = printf("Hello\n");
    return written == -9;
}
