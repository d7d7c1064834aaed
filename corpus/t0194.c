int main()
{
    int a = 0;
    int b = 20;

    if (a || b)
        printf("%d %d\n", a, b);

    b = 0;

    if (a || b)
        printf("%d %d\n", a, b);
    else
        printf("0\n");

    return 0;
}
