int main()
{
    printf("%d %d", -2147483647 / 17, -2147483647 % 17);
    return 0;
}
