/* Performs a history of stream operations given as arguments:
   r slot name | w slot name | c slot | p slot byte | g slot | s slot size  */
FILE *strm[10];
char buf[400];

void putn(int v)
{
    char d[16];
    int k = 0;
    if (v < 0) {
        fputc('-', 1);
        v = 0 - v;
    }
    if (v == 0)
        fputc('0', 1);
    while (v) {
        d[k] = '0' + v % 10;
        v = v / 10;
        k++;
    }
    while (k) {
        k--;
        fputc(d[k], 1);
    }
    fputc(' ', 1);
}

int hexchar(int v)
{
    if (v < 10)
        return '0' + v;
    return 'a' + v - 10;
}

int number(char *s)
{
    int v = 0;
    int i = 0;
    while (s[i]) {
        v = v * 10 + s[i] - '0';
        i++;
    }
    return v;
}

int main(int argc, char *argv[])
{
    int k = 1;
    int i;
    int n;
    int s;
    int hi;
    int other;
    char *op;
    char *r;
    char *b = buf + 40;
    strm[9] = 0;
    while (k + 1 < argc) {
        op = argv[k];
        s = number(argv[k + 1]);
        k += 2;
        if (op[0] == 'r') {
            strm[s] = fopen(argv[k], "rb");
            k++;
            putn(strm[s] > 2);
        }
        if (op[0] == 'w') {
            strm[s] = fopen(argv[k], "wb");
            k++;
            putn(strm[s] > 2);
        }
        if (op[0] == 'c')
            putn(fclose(strm[s]));
        if (op[0] == 'p') {
            n = number(argv[k]);
            k++;
            putn(fputc(n, strm[s]));
        }
        if (op[0] == 'g')
            putn(fgetc(strm[s]));
        if (op[0] == 's') {
            n = number(argv[k]);
            k++;
            for (i = 0; i < 400; i++)
                buf[i] = 238;
            r = fgets(b, n, strm[s]);
            if (r == b)
                putn(1);
            else if (r == 0)
                putn(0);
            else
                putn(2);
            for (i = 0; i < n; i++) {
                hi = b[i];
                fputc(hexchar(hi >> 4), 1);
                fputc(hexchar(hi & 15), 1);
            }
            other = 0;
            for (i = 0; i < 400; i++)
                if (buf[i] != 238)
                    if (i < 40 || i >= 40 + n)
                        other++;
            fputc(' ', 1);
            putn(other);
        }
        fputc('\n', 1);
    }
    return 0;
}
