/* Formats given cases: groups of arguments  mode format size kinds value...  */
char buf[600];

void putn(int v)
{
    char d[16];
    int k = 0;
    if (v < 0) {
        fputc('-', 1);
        v = 0 - v;
    }
    if (v == 0)
        fputc('0', 1);
    while (v) {
        d[k] = '0' + v % 10;
        v = v / 10;
        k++;
    }
    while (k) {
        k--;
        fputc(d[k], 1);
    }
    fputc(' ', 1);
}

int hexchar(int v)
{
    if (v < 10)
        return '0' + v;
    return 'a' + v - 10;
}

int number(char *s)
{
    int v = 0;
    int i = 0;
    int neg = 0;
    if (s[0] == '-') {
        neg = 1;
        i = 1;
    }
    while (s[i]) {
        v = v * 10 + s[i] - '0';
        i++;
    }
    if (neg)
        v = 0 - v;
    return v;
}

int main(int argc, char *argv[])
{
    int a[8];
    int k = 1;
    int i;
    int j;
    int r;
    int n;
    int hi;
    char *mode;
    char *f;
    char *kinds;
    char *s;
    while (k + 3 < argc) {
        mode = argv[k];
        f = argv[k + 1];
        n = number(argv[k + 2]);
        kinds = argv[k + 3];
        k += 4;
        for (i = 0; i < 8; i++)
            a[i] = 0;
        for (i = 0; kinds[i] != '.'; i++) {
            s = argv[k];
            k++;
            if (kinds[i] == 'i')
                a[i] = number(s);
            else
                a[i] = s;
        }
        for (i = 0; i < 600; i++)
            buf[i] = 238;
        s = buf + 40;
        r = 0;
        if (mode[0] == 'p') {
            fputc(2, 1);
            r = printf(f, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
            fputc(3, 1);
        }
        if (mode[0] == 's')
            r = sprintf(s, f, a[0], a[1], a[2], a[3], a[4], a[5]);
        if (mode[0] == 'n')
            r = snprintf(s, n, f, a[0], a[1], a[2], a[3], a[4]);
        putn(r);
        if (mode[0] != 'p') {
            /* r + 1 bytes of text, then the number of other bytes changed */
            j = r + 1;
            if (mode[0] == 'n' && n == 0)
                j = 0;
            if (j < 0 || j > 500)
                j = 500;
            for (i = 0; i < j; i++) {
                hi = s[i];
                fputc(hexchar(hi >> 4), 1);
                fputc(hexchar(hi & 15), 1);
            }
            fputc(' ', 1);
            r = 0;
            for (i = 0; i < 600; i++)
                if (buf[i] != 238)
                    if (i < 40 || i >= 40 + j)
                        r++;
            putn(r);
        }
        fputc('\n', 1);
    }
    return 0;
}
