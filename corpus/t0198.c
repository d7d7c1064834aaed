int func(int x)
{
    if (x > 0)
        printf("%d > 0\n", x);
    return x;
}

int main()
{
    int a = 10, b = 0, c = 20, d = -100;
    if (func(a) || func(b))
        printf("%d %d\n", a, b);

    if (func(b) || func(c))
        printf("%d %d\n", b, c);

    if (func(d + 100) || func(b))
        printf("%d %d\n", b, c);
    else
        printf("get 0\n");


    return 0;
}
