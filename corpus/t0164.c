int main()
{
    printf("%d %d", -6 / 4, -6 % 4);
    return 0;
}
