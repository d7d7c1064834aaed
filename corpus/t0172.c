int main()
{
    printf("%d %d", -2147483648 / 16, -2147483648 % 16);
    return 0;
}
