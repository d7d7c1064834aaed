int main()
{
    int a = 5, b = 16, c = 0;
    do {
        printf("do: ");
        if (a > 0) {
            c -= 2;
            a -= 2;
            printf("a -= 2\n");
        } else if (b > 0) {
            c -= 5;
            b -= 5;
            printf("b -= 5\n");
        }
    } while (a > 0 || b > 0);
    printf("%d %d %d\n", a, b, c);

    return 0;
}
