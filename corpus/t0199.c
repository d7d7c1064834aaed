int func(int x)
{
    if (x > 0)
        printf("func(%d): %d > 0\n", x, x);
    else
	printf("func(%d): %d <= 0\n", x, x);
    return x;
}

int main()
{
    int a = 10, b = 20, c = 0, d = -100;
    printf("%d\n", a && b && c && d);
    printf("%d\n", a || b && c && d);
    printf("%d\n", a && b || c && d);
    printf("%d\n", a && b && c || d);
    printf("%d\n", a || b || c && d);
    printf("%d\n", a || b && c || d);
    printf("%d\n", a && b || c || d);
    printf("%d\n", a || b || c || d);

    printf("%d\n", (a || b) && c && d);
    printf("%d\n", a && (b || c) && d);
    printf("%d\n", a && b && (c || d));
    printf("%d\n", (a || b || c) && d);
    printf("%d\n", (a || b) && (c || d));
    printf("%d\n", a && (b || c || d));
    printf("%d\n", a * 0 && (b || c || d));
    printf("%d\n", a * 2 && (b || c || d));
    printf("%d\n", a && (b * 0 || c || d * 0));

    printf("%d\n", func(a) && func(b) && func(c));
    printf("%d\n", func(a) - a && func(b) && func(c));
    printf("%d\n", func(a) - a && func(b) && func(c) + 1);
    printf("%d\n", func(c) || func(a) && func(d));
    printf("%d\n", func(c) || func(c) && func(d));
    printf("%d\n", (func(c) || func(c)) && func(d + 100));
    printf("%d\n", func(c) || func(a) && func(d));
    printf("%d\n", func(a) && (func(d) || func(c)));
    printf("%d\n", func(a) * 2 && (func(d) || func(c)));

    return 0;
}
