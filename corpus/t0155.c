#define WRAPPER(...)             do {                             printf("Wrapper: ");         printf(__VA_ARGS__);     } while (0)
int main()
{
    WRAPPER("%s", "Hello World!");
    return 0;
}
