/* Shows its arguments, then performs the script argv[1]:
   c call, p call through a pointer, r leave, a allocate, f free,
   x<n>; exit, A abort, v<n>; return from main.  Letters after c and p choose
   where the call stands. */
BIGDECL
char *sc;
int pos;
int level;
char *blk[64];
int nblk;
int finished;
int result;

int go(int d);

void put(char *s)
{
    int i = 0;
    while (s[i]) {
        fputc(s[i], 1);
        i++;
    }
}

void putn(int v)
{
    char d[16];
    int k = 0;
    if (v == 0)
        fputc('0', 1);
    while (v) {
        d[k] = '0' + v % 10;
        v = v / 10;
        k++;
    }
    while (k) {
        k--;
        fputc(d[k], 1);
    }
    fputc('\n', 1);
}

int hexchar(int v)
{
    if (v < 10)
        return '0' + v;
    return 'a' + v - 10;
}

int num()
{
    int v = 0;
    int neg = 0;
    if (sc[pos] == '-') {
        neg = 1;
        pos++;
    }
    while (sc[pos] != ';') {
        v = v * 10 + sc[pos] - '0';
        pos++;
    }
    pos++;
    if (neg)
        v = 0 - v;
    return v;
}

int enter(int d)
{
    int loc[20];
    int i;
    for (i = 0; i < 20; i++)
        loc[i] = d * 20 + i;
    level = d;
    put("+");
    putn(d);
    go(d);
    for (i = 0; i < 20; i++)
        if (loc[i] != d * 20 + i)
            put("bad\n");
    return d;
}

/* no return statement */
int quiet(int d)
{
    enter(d);
}

int go(int d)
{
    int (*act)();
    int c;
    int k;
    int n;
    while (!finished) {
        c = sc[pos];
        pos++;
        if (c == 'c' || c == 'p') {
            act = enter;
            k = sc[pos];
            pos++;
            if (c == 'c') {
                switch (k) {
                case '0':
                    enter(d + 1);
                    break;
                case '1':
                    for (n = 0; n < 1; n++)
                        quiet(d + 1);
                    break;
                case '2':
                    if (enter(d + 1) != d + 1)
                        put("bad\n");
                    break;
                default:
                    n = d ? enter(d + 1) + 3 : 3 + enter(d + 1);
                    if (n != d + 4)
                        put("bad\n");
                }
            } else {
                if (k == '0')
                    act(d + 1);
                else if (k == '1') {
                    n = act(d + 1);
                    if (n != d + 1)
                        put("bad\n");
                } else {
                    do {
                        n = d + act(d + 1);
                    } while (n < 0);
                    if (n != d + d + 1)
                        put("bad\n");
                }
            }
            level = d;
        }
        if (c == 'r') {
            if (level != d)
                put("bad\n");
            put("-");
            putn(d);
            return 0;
        }
        if (c == 'a') {
            blk[nblk] = malloc(100 + 3000 * nblk);
            blk[nblk][99] = 1;
            nblk++;
            put("a\n");
        }
        if (c == 'f') {
            nblk--;
            free(blk[nblk]);
            put("f\n");
        }
        if (c == 'x') {
            n = num();
            put("x\n");
            exit(n);
        }
        if (c == 'A') {
            put("A\n");
            abort();
        }
        if (c == 'v') {
            result = num();
            put("v\n");
            finished = 1;
        }
    }
    return 0;
}

int main(int argc, char *argv[])
{
    int i;
    int j;
    int h;
    BIGUSE
    putn(argc);
    for (i = 0; i < argc; i++) {
        for (j = 0; argv[i][j]; j++) {
            h = argv[i][j];
            fputc(hexchar(h >> 4), 1);
            fputc(hexchar(h & 15), 1);
        }
        fputc('\n', 1);
    }
    if (argv[argc])
        put("bad\n");
    sc = argv[1];
    go(0);
    return result;
}
