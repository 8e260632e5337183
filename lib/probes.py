"""Regression probes: small programs whose values are known, each once a defect of scc (or close to one).
(property, name, declarations, body of Main, values printed)."""
PROBES = [
('C01', 'x*0', 'int x;', 'x=5;P(x*0);', (0,)),
('C01', 'sdiv pow2', 'int x;', 'x=-5;P(x/2);P(x/4);P(x/1);x=-1;P(x/2);', (-2, -1, -5, 0)),
('C01', 'smod pow2', 'int x;', 'x=-5;P(x%2);P(x%4);', (-1, -1)),
('C01', 'if mul', 'int a;int b;', 'a=3;b=0; if(a*b)P(1);else P(2); a=256;b=256;if(a*b)P(1);else P(2);a=3;if(a*b)P(1);else P(2);a=0;P(0);if(a*b)P(1);else P(2);', (2, 2, 1, 0, 2)),
('C01', 'if div', 'int a;int b;', 'a=3;b=5; if(a/b)P(1);else P(2); a=6;b=2;if(a/b)P(1);else P(2);if(a%b)P(1);else P(2);', (2, 1, 2)),
('C01', 'if x+0', 'int a;', 'a=0;P(7);if(a+0)P(1);else P(2);a=5;if(a+0)P(1);else P(2);', (7, 2, 1)),
('C01', 'cond bool', 'int a;int b;', 'a=1;b=2;P(a?b>1:b<1);P(a?b<1:b>1);', (1, 0)),
('C01', 'lit in &&', 'int a;int b;', 'a=1;b=0;P(a&&5);P(a&&0);P(b||5);P(b||0);', (1, 0, 1, 0)),
('C02', 'do const', '', 'int n=0;do{P(n);if(++n==3)break;}while(1);do{P(9);}while(0);', (0, 1, 2, 9)),
('C03', 'preinc ptr', 'int a[2];int*p;', 'int x;p=a;a[0]=5;x=++*p;P(x);P(a[0]);P(--*p);P(a[0]);x=(*p)++;P(x);P(a[0]);', (6, 6, 5, 5, 5, 6)),
('C01', 'unsigned binop', 'unsigned u;int i;', 'u=0xfff0;i=2;P((u+i)/2);P((u+1)>5);P((u|i)>>1);P((i+u)/2);', (32761, 1, 32761, 32761)),
('C01', 'shift sign', 'unsigned u;int i;', 'u=2;i=-8;P(i>>u);P(u>>1);u=0x8000;i=1;P(u>>i);P(i<<u-0x7fff);', (-2, 1, 16384, 2)),
('C01', 'char assign val', 'char c;int x;', 'x=c=300;P(x);P(c);x=(c+=100);P(x);P(c=200);if((c=256))P(1);else P(2);', (44, 44, -112, -56, 2)),
('C03', 'ptr minus', 'int a[8];int*p;int*q;int n;', 'a[2]=77;a[5]=55;p=a+5;n=3;q=p-n;P(*q);P(*(p-3));P(q-p);P(p-q);P(*(n+a+2));P(*(2+a));p-=3;P(*p);p+=n;P(*p);', (77, 77, -3, 3, 55, 77, 77, 55)),
('C04', 'fnptr read', 'int F(int x){return x+1;} int(*f)(int);int(*g)(int);', 'f=F;g=f;P(g(3));P(f==g);P(g!=F);', (4, 1, 0)),
('C05', 'multidecl', '', 'int a[2][3],b;b=5;P(b);P(sizeof(b));int *p,c;P(sizeof c);', (5, 2, 2)),
('C05', 'unused static', '', 'static int x;P(1);', (1,)),
('C05', 'static', 'int F(void){static int n; return ++n;}', 'P(F());P(F());', (1, 2)),
('C01', 'add 8000', 'int x;', 'x=1;P(x+0x8000);P(x-0x8000);P(x+32767+1);', (32769, 32769, 32769)),
('C01', 'const fold', '', 'P(0x8000>>1);P(0x8000/2);P(32767+1>0);P(0x8000>5);', (49152, 49152, 0, 0)),
('C02', 'sw decl', 'int x;', 'x=1;switch(x){int y; case 1: y=3; P(y);break; default:P(4);} P(5);', (3, 5)),
('C01', 'hex uns', 'int x;', 'x=5;P(0x8000>x);P(0xffff/2);P(x<0xffff);', (0, 0, 0)),
('C01', 'comma', 'int x;', 'P((x=3,x+1));', (4,)),
('C01', 'char assign 2', 'char c;unsigned char u;unsigned w;int i;struct S{int a,b;}s;struct S*F(void){return &s;}', 'struct S*q;char*p=&c;i=1000;P(*p=i);P(*p=1000);P(u=i);P(u=-1);P(c=-1);u=c=255;P(u);i=(u=511)+1;P(i);P((w=5)>-1);P((w=i)>-1);i=-4;P((i=-4)/2);P((w=i)/2);s.b=6;P((q=F())->b);i=c=w=513;P(i);P((u+=300));P((*p-=200));P((c<<=1));P(sizeof(c=5));P((c=3)?7:8);P(c=c+1);P((char)(i=300));P((unsigned char)-2);P(i=(char)200);P(-(char)200);P((char)200==200);', (-24, -24, 232, 255, -1, 255, 256, 0, 0, -2, 32766, 6, 1, 43, 57, 114, 1, 7, 4, 44, 254, -56, 56, 0)),
('C01', 'reguse cond', 'int F(int x){return x+1;} int G(int a,int b,int c,int d,int e){return a*16+b*8+c*4+d*2+e;}', 'int x=3;int y=5;int a=0;int b=7;int c=2;int d=1;int e=4;P(x*y+(a?b*c+d*e:0));a=1;P(x*y+(a?b*c+d*e:0));P(x*y+(a?F(1)*F(2):d));a=0;P(x*y+(a?F(1)*F(2):d));', (15, 33, 21, 16)),
('C01', 'reguse and', 'int F(int x){return x+1;} int G(int a,int b,int c,int d,int e){return a*16+b*8+c*4+d*2+e;}', 'int x=3;int y=5;int a=0;int b=7;int c=2;int d=1;int e=4;P(x*y+(a&&F(1)));P(x*y+(a||F(1)));a=1;P(x*y+(a&&F(1)));P(x*y+(a||F(1)));P((x+1)*(y+(a&&F(1)&&F(2))));', (15, 16, 16, 16, 24)),
('C01', 'zf cond', 'int F(int x){return x+1;} int G(int a,int b,int c,int d,int e){return a*16+b*8+c*4+d*2+e;}', 'int x=3;int y=5;int a=0;int b=7;int c=2;int d=1;int e=4;P(9);if(a?F(-2):a+0x10)P(1);else P(2);if(a?x+1:F(-1))P(1);else P(2);a=1;if(a?F(-1):c+3)P(1);else P(2);', (9, 1, 2, 2)),
('C01', 'zf cond2', 'int F(int x){return x+1;} int G(int a,int b,int c,int d,int e){return a*16+b*8+c*4+d*2+e;}', 'int x=3;int y=5;int a=0;int b=7;int c=2;int d=1;int e=4;if(d?F(-1):c-d)P(1);else P(2);', (2,)),
('C01', 'uc/sc cond', 'unsigned char u;char s;int a;', 'u=200;s=-5;a=1;P(a?u:s);P(a?s:u);a=0;P(a?u:s);P(a?s:u);', (200, -5, -5, 200)),
('C01', 'cond uns', 'unsigned u;int a;int i;', 'u=0xfff0;i=2;a=1;P((a?u:i)/2);P((a?i:u)/2);a=0;P((a?i:u)/2);P((a?u:i)>-1);', (32760, 1, 32760, 0)),
('C02', 'empty if', 'void S(char*s){}', 'int x=0;S("0123456789]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]");if(x);P(1);if(x){}P(2);if(x);if(x);if(x);P(3);', (1, 2, 3)),
('C05', 'static arr', 'void f(void){static char a[10];a[0]=1;a[9]=2;P(a[0]+a[9]);} char b[20];', 'b[19]=1;f();', (3,)),
('C01', 'dead pend', 'int F(int x){return x+1;} int G(int a,int b,int c,int d,int e){return a*16+b*8+c*4+d*2+e;}', 'int x=3;int y=5;int a=0;int b=7;int c=2;int d=1;int e=4;int q[3];P(x*y+sizeof(q[a+1]));P(x*y+(1?b:b+1));P(x*y+(0?F(2):b*c));P(x*y+sizeof(F(1)));P(x*y*(2?b*c:b+1));', (17, 22, 29, 17, 210)),
('C02', 'dead drift', 'int F(int x){return x+1;} int G(int a,int b,int c,int d,int e){return a*16+b*8+c*4+d*2+e;}', 'int a=1;int x=2;goto L; a=(x+1)*(a+1)+(x+2)*(a+2); L: P(a); int b=7; int c=9; P(a);P(x);P(b);P(c);', (1, 1, 2, 7, 9)),
('C01', 'bool opnd', 'int F(int x){return x+1;} int G(int a,int b,int c,int d,int e){return a*16+b*8+c*4+d*2+e;}', 'int x=3;int y=5;int a=0;int b=7;int c=2;int d=1;int e=4;int q[3];q[0]=4;q[1]=5;P(-(x<y));P(~(x<y));P(q[x<y]);x*=(x<y);P(x);P(+(x<y));', (-1, -2, 5, 3, 1)),
('C01', 'const rel', 'enum{N=5};', 'if(N>3)P(1);else P(2);P(N==5);P(N<2||N>9);', (1, 1, 0)),
('C04', 'fp ptr', 'int F(int x){return x+1;} int A(int (*f)(int),int x){return f(x);} struct S{int (*f)(int);};', 'int(*f)(int);f=F;struct S s;s.f=F;P((*f)(3));P(s.f(4));struct S*q=&s;P(q->f(5));P((*F)(6));P(A(F,7));P(A(f,8));P(A(&F,9));f=s.f;P(f(10));', (4, 5, 6, 7, 8, 9, 10, 11)),
('C03', 'void ptr', '', 'void*p;int x;p=&x;P(p==0);P(p!=&x);', (0, 0)),
('C02', 'switch decl mid', '', 'int x=0;while(x<4){switch(x){case 1:P(1);int y=3;P(y);break;case 2:P(2);break;default:P(7);} ++x;}P(9);', (7, 1, 3, 2, 7, 9)),
('C03', 'int+ptr', 'int a[5];', 'int n=2;a[3]=33;P(*(n+a+1));P(*(3+a));', (33, 33)),
('C03', 'ptr+=', 'int a[5];', 'int n=2;int*p=a;a[3]=33;a[1]=11;p+=n;p+=1;P(*p);p-=n;P(*p);P(p-a);', (33, 11, 1)),
('C03', 'ptr cmp', 'int a[5];', 'int*p=a;int*q=a+3;P(p<q);P(q<p);P(p==q);P(q-p);P(p-q);P(p!=0);', (1, 0, 0, 3, -3, 1)),
('C03', '3ptr', '', 'int x=5;int*p=&x;int**q=&p;int***r=&q;P(***r);***r=6;P(x);P(sizeof(***r));', (5, 6, 2)),
('C04', 'void fnret', 'char*f(char*s){return s+1;}', 'char*s=f("abc");P(*s);P(*f(s));P(f(s)[0]);', (98, 99, 99)),
('C03', '2d', 'int a[3][4];struct S{char c;int x[3];}s[2];', 'int i=2;int j=3;a[2][3]=7;P(a[i][j]);a[1][2]=8;P(*(*(a+1)+2));s[1].x[2]=9;P(s[1].x[2]);P(sizeof(a[0]));P(sizeof(s[0]));struct S*p=s+1;P(p->x[i]);P((p-1)->x[i]==0);', (7, 8, 9, 8, 7, 9, 1)),
('C03', 'struct big ++', 'struct S{char c[200];int x;}s[3];', 'struct S*p=s;s[2].x=5;s[1].x=4;++p;p++;P(p->x);--p;P(p->x);P((p--)->x);P(p-s);', (5, 4, 4, 0)),
('C03', 'cond ptr', 'struct S{int a,b;}s;', 'struct S*p=&s;s.b=5;int c=0;P((c?0:p)->b);c=1;P((c?p:0)->b);char*q="abc";P(*(c?q:0));c=0;P(*(c?0:q));P(*(c?0:q+1));P(*(c?q:"xyz"));', (5, 5, 97, 97, 98, 120)),
('C04', 'fp intermediate', 'int F(int x){return x+1;} int (*g)(int); struct S{int (*f)(int);}s;', 'int(*f)(int);f=F;g=F;s.f=F;int x=3;int y=5;P(x*y+f(3));P(x*y+g(3));P(x*y*(y-f(3)));P((x+1)*s.f(2));P(x*y+(x+1)*f(1));', (19, 19, 15, 12, 23)),
('C05', 'multi2', 'typedef int*IP;struct S{IP a,b;};int(*f)(int),z;int h;static int k,l[3],m;', 'P(sizeof(struct S));P(sizeof(z));IP p,q;P(sizeof(*q));z=5;h=6;P(z+h);P(sizeof m);', (4, 2, 2, 11, 2)),
('C03', 'typedef arr', 'typedef int A[3];typedef char B[2][5];A x[2],y;B b[4];', 'P(sizeof(A));P(sizeof x);P(sizeof x[0]);P(sizeof y);P(sizeof b);P(sizeof b[0]);P(sizeof b[0][0]);P(sizeof(B));x[1][2]=5;y[0]=6;P((char*)&x[1][2]-(char*)x);', (6, 12, 6, 6, 40, 10, 5, 10, 10)),
('C04', 'arr param', 'int F(int a[3],int b[]){return a[1]+b[2];} int s(int a[3]){return sizeof a;} int g[3];', 'g[1]=3;g[2]=4;P(F(g,g));P(s(g));', (7, 2)),
('C05', 'extern', 'extern int q;int q;', 'q=5;P(q);', (5,)),
('C05', 'tentative', 'int q;int q;char b[3];char b[3];', 'q=5;P(q);', (5,)),
('C02', 'duff decl', 'int D(int x){int r=0;switch(x){int i; case 0:i=3;do{int k;k=5;r+=k;case 2: r+=1; i=0;}while(i>0); r+=100;break;case 7:{int z;z=3;case 8:z=4;r+=z;}} return r;}', 'P(D(0));P(D(2));P(D(7));P(D(8));P(D(9));', (106, 101, 4, 4, 0)),
('C05', 'typedef local', 'typedef int T;typedef struct S{int a;T b;}SS;typedef char*CP;', 'T x;T y;x=5;y=6;P(x);P(y);SS s;s.a=1;s.b=2;P(s.a);P(s.b);P(x);CP c;c="ab";P(*c);{T x;x=9;P(x);}P(x);P(sizeof(T));', (5, 6, 1, 2, 5, 97, 9, 5, 2)),
('C05', 'typedef cast', 'typedef int T;', 'int x=5;T z=(T)x;P(z);', (5,)),
('C05', 'typedef param', 'typedef int T; T F(T a,T b){T c; c=a+b;return c;} struct S{T a;T b;}s;', 'P(F(2,3));s.a=4;s.b=5;P(s.a);P(s.b);T*p;p=&s.b;P(*p);T q[3];q[2]=7;P(q[2]);P(sizeof q);', (5, 4, 5, 5, 7, 6)),
('C05', 'typedef in block', '', 'typedef int T;T x;x=5;P(x);{typedef char T;T y;P(sizeof y);P(sizeof(T));}P(sizeof(T));T z;z=9;P(x);P(z);', (5, 1, 1, 2, 5, 9)),
('C05', 'typedef name shadow', 'typedef int T;', 'int T;T=5;P(T);{int T=6;P(T);}', (5, 6)),
('C02', 'dead fnptr', 'int(*f)(int);int A(void){return 1;f(2);} int B(void){return 2;}', 'P(A());P(B());', (1, 2)),
('C01', 'sizeof in expr', 'int a;int b;int c;', 'a=3;b=4;c=5;P(a*2+sizeof(b*c));P((a+b)*(c+sizeof(a*b)));P(a+b*(1?c:a*b*c));P((a+1)*(b+(0?c*a:c)));P((a+1)*(b+(1?c:c*(a+7))));', (8, 49, 23, 36, 36)),
('C02', 'dead stmt', 'int a;int b;int*q;int F(int x){int y;y=3;if(0){y=a+b*x;q[a]=b*(x+1);return a*b;} return y+x;}', 'P(F(2));', (5,)),
('C01', 'c8', 'int x;unsigned u;', 'x=3;P(x-0x8000);P(x+0x8000);P(x*0x8000);P(0x8000*x);u=0xC000;P(u/0x8000);P(0x8000>>1);P(0x8000<0);P(-0x8000);P(1<<15);P((1<<15)>>15);P(-1<<3);P(0xffff==-1);P(32767+1<0);P(x<0x8000);P(300*300);P(0x7fff*2);u=0x8000;P(u/1);P(x/-1);P(x/-2);P(-7/2);P(-7%3);P(~0);P(!5);', (32771, 32771, 32768, 32768, 1, 49152, 1, 32768, 32768, -1, -8, 1, 1, 0, 90000, -2, 32768, -3, -1, -3, -1, -1, 0)),
('C04', 'unnamed', 'int F(int a,int,int c){return a*10+c;}', 'P(F(1,2,3));', (13,)),
('C03', 'structs', 'struct A{int x;struct A*n;struct B{char c;int d;}b;struct A*arr[2];}a,*q;union U{int i;char c[2];}u;', 'q=&a;a.n=q;a.b.d=5;a.arr[1]=q;P(q->n->arr[1]->b.d);P(sizeof(a));P(sizeof u);P(sizeof(struct B));', (5, 11, 2, 3)),
('C04', 'fwd fn addr', 'int f3(int a);int (*GF)(int); int ap(int(*f)(int),int x){return f(x);}', 'P((*f3)(300));GF=f3;P(GF(300));P(ap(f3,1));P(ap(&f3,2));P((&f3)(3));P(GF==f3?1:0);int(*l)(int)=f3;P(l(1));}int f3(int a){return a+5;', (305, 305, 6, 7, 8, 1, 6)),
('C04', 'char fn', 'char F(int x){return x;} unsigned char G(int x){return x;} int(*f)(int); char(*g)(int);', 'P(F(300));P(F(200));P(G(200));P(G(-1)+1);if(F(256))P(1);else P(2);g=F;P(g(511));', (44, -56, 200, 256, 2, -1)),
('C01', 'dead labels', 'int a;int b;int c;', 'a=1;b=2;c=3;P(1?a:b&&c);P(0?(a?b:c):(c?b:a));P(a+(1?b:(a||b)));P(sizeof(a?b:c));P(1?1?a:b&&c:0?b||a:c);P(2*sizeof(a?b:c));', (1, 2, 3, 2, 1, 4)),
('C01', 'dead pend2', 'int a;int b;int c;', 'a=1;b=2;c=3;P((a+b)-(1?c:((a*b)-(b*c))));', (0,)),
('C02', 'dead cond', 'int g;int F(int d){int b;for(b=0;b<3;++b){P(b);if(0)return 256+d-(g?0:g);if(g)goto d;d:;int z;z=95;}P(0x555);return 1;} int G(int d){int b;b=3;if(0){b=d*d+(d&&g)+(d+1)*(g||d);}int c;c=4;L:;int e;e=5;P(b);P(c);P(e);return d;}', 'P(F(2));P(G(7));', (0, 1, 2, 1365, 1, 3, 4, 5, 7)),
('C05', 'struct commas', 'struct A{int x[2],y,*z;char c,d[3];};', 'struct A a[2],b,*p;struct{char q;}r[2],s;p=&b;b.d[2]=7;P(p->d[2]);P(sizeof a);P(sizeof b);P(sizeof p);P(sizeof s);', (7, 24, 12, 2, 1)),
]
