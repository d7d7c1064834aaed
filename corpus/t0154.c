#define M(m, n, ...)         do {                         x = __VA_ARGS__;     } while (0)
int main()
{
    int x = 0;
    M(0, 1, 2);
    return x;
}
