int main()
{
    printf("%d %d", 1365 / 1, 1365 % 1);
    return 0;
}
