int main()
{
    printf("%d %d", -2147483648 / 241, -2147483648 % 241);
    return 0;
}
