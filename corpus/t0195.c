int main()
{
    int a = 2, b = 8, c = 0;
    for (int i = 0; a || b; i++) {
        if (a) {
            c += i;
            a--;
            printf("a--\n");
            continue;
        }
        if (b) {
            c += i;
            b--;
            printf("b--\n");
            continue;
        }
    }
    printf("%d %d %d\n", a, b, c);

    return 0;
}
