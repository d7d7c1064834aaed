int main()
{
    printf("%d %d", -109 / -9, -109 % -9);
    return 0;
}
