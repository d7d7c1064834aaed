int main()
{
    printf("%d %d", -2147483648 / 1, -2147483648 % 1);
    return 0;
}
