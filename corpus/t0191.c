char ch1 = 'A';
char ch2 = ('B');
char ch3 = (('C'));
int main()
{
    return ch1 + ch2 + ch3;
}
