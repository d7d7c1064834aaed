int main()
{
    int a = 3, b = 9, c = 0;
    while (a > 0 || b > 0) {
        if (a > 0) {
            c += 2;
            a -= 2;
            printf("a -= 2\n");
            continue;
        }
        if (b > 0) {
            c += 3;
            b -= 3;
            printf("b -= 3\n");
            continue;
        }
    }
    printf("%d %d %d\n", a, b, c);

    return 0;
}
