// blogc-runserver: options, environment and the arguments handed to the server loop.
#include "env.h"
#include <errno.h>
int blogc_runserver_main(int argc, char **argv);
const char *br_mime_guess_content_type(const char *filename);
static char *dup_(const char *s) { v_buf b; v_buf_init(&b, 100); v_buf_s(&b, s); return b.s; }
static char *cat(const char *a, const char *b) { v_buf x; v_buf_init(&x, 100); v_buf_s(&x, a); v_buf_s(&x, b); return x.s; }
static int fd, once; static ve_out got; static int creates, joined_before;
static int acc(void) { if (creates < joined_before) return ve_fd_sock("GET /i HTTP/1.0\r\n\r\n", 19); errno = EMFILE; return -1; }
static int create(void *(*fn)(void *), void *arg) { creates++; fn(arg); return 0; }
static int joins; static int join(unsigned long t) { (void) t; joins++; return 0; }
static void closing(int f) { if (ve_fd_out(f)->n) got = *ve_fd_out(f); (void) fd; (void) once; }
static int contains(const char *s, const char *t) { for (; *s; s++) { size_t i = 0; while (t[i] && s[i] == t[i]) i++; if (!t[i]) return 1; } return 0; }
static void args(size_t max, int only_m) {
    char *av[12]; int ac = 0; av[ac++] = dup_("blogc-runserver");
    ve_text("/vfs/a/i", "AAA"); ve_text("/vfs/b/i", "BBB");
    char *eh = !only_m && v_choose(2) ? v_str(0, 1) : NULL, *ep = !only_m && v_choose(2) ? dup_("81") : NULL; if (eh) ve_setenv("BLOGC_RUNSERVER_DEFAULT_HOST", eh); if (ep) ve_setenv("BLOGC_RUNSERVER_DEFAULT_PORT", ep);
    static const char *M[] = {"3", "20", "1001", "0", "5x"}; char *host = NULL, *port = NULL, *m = NULL; int roots = 0, bad = 0, info = 0; const char *root = NULL, *txt = NULL;
    int n = only_m ? 2 : v_choose(v_param(2) + 1); int last = 0;
    for (int i = 0; i < n && !bad && !info; i++) {
        int k = only_m ? 2 + i : v_choose(i ? 4 : 7); last = k;
        if (k < 3) {
            int sep = v_choose(2); char *v = k == 2 && !only_m ? dup_(M[v_choose(5)]) : k == 2 ? v_str_of(1, max, "0123456789-x") : v_str(1, max);
            if (only_m) for (size_t j = 0; v[j]; j++) v[j] = v_conc(v[j]);
            if ((k == 0 && host) || (k == 1 && port) || (k == 2 && m)) v_end();
            static const char *O[] = {"-t", "-p", "-m"};
            if (sep) { av[ac++] = dup_(O[k]); av[ac++] = v; } else av[ac++] = cat(O[k], v);
            if (k == 0) host = v; else if (k == 1) port = v; else m = v;
        } else if (k == 3) { root = v_choose(2) ? "/vfs/b" : "/vfs/a"; if (!roots) txt = root[5] == 'b' ? "BBB" : "AAA"; if (roots++) bad = 1; av[ac++] = dup_(root); }
        else if (k == 4) { char *o = v_strn(1); v_assume((o[0] != 'h') & (o[0] != 'v') & (o[0] != 't') & (o[0] != 'p') & (o[0] != 'm')); av[ac++] = cat("-", o); bad = 1; }
        else { av[ac++] = dup_(k == 5 ? "-h" : "-v"); info = 1; }
    }
    av[ac] = NULL; (void) last;
    if (!roots && !info) bad = 1;
    unsigned long mv = 20; int digits = 1;
    if (m) { mv = 0; for (size_t i = 0; m[i]; i++) { digits &= (m[i] >= '0') & (m[i] <= '9'); mv = mv * 10 + (m[i] - '0'); } }
    joined_before = m || eh || ep || n > 1 ? 6 : 22; ve_accept_hook = acc; ve_thread_hook = create; ve_join_hook = join; ve_close_hook = closing;
    int rv = blogc_runserver_main(ac, av);
    int ran = ve_gai_host != NULL;
    if (info) { V_CHECK(rv == 0 && !ran && ve_stdout.n > 0, "information only"); v_reach("info"); return; }
    if (bad) { V_CHECK(rv != 0 && !ran && ve_stderr.n > 0, "a bad command line is refused"); v_reach("refused"); return; }
    if (!digits) {
        if (!ran) { V_CHECK(rv != 0 && ve_stderr.n > 0, "a bad number of threads is refused"); v_reach("bad number"); return; }
        V_CHECK(contains(ve_stderr.s, "warning"), "a number of threads that is not a number is used silently"); v_reach("partial number");
    } else if (mv < 1 || mv > 1000) { V_CHECK(rv != 0 && !ran && ve_stderr.n > 0, "a number of threads out of range is refused"); v_reach("out of range"); return; }
    V_CHECK(ran, "the server runs");
    V_CHECK(v_eqs(ve_gai_host, host ? host : eh ? eh : "127.0.0.1"), "address"); V_CHECK(v_eqs(ve_gai_service, port ? port : ep ? ep : "8080"), "port");
    V_CHECK(creates == joined_before && got.n > 3 && v_eqn(got.s + got.n - 3, txt, 3), "document root");
    if (digits) V_CHECK(joins == (mv >= (unsigned) joined_before ? 0 : joined_before - (int) mv), "number of threads");
    v_reach("runs");
}
// content types of the files of a site, whatever comes before the extension
static void types(size_t max) {
    static const char *T[][2] = {{"html", "text/html"}, {"htm", "text/html"}, {"shtml", "text/html"}, {"xhtml", "application/xhtml+xml"}, {"xml", "text/xml"}, {"txt", "text/plain"}, {"css", "text/css"}, {"js", "application/javascript"}, {"json", "application/json"},
        {"gif", "image/gif"}, {"jpg", "image/jpeg"}, {"jpeg", "image/jpeg"}, {"png", "image/png"}, {"svg", "image/svg+xml"}, {"webp", "image/webp"}, {"ico", "image/x-icon"}, {"bmp", "image/x-ms-bmp"}, {"tif", "image/tiff"}, {"atom", "application/atom+xml"}, {"rss", "application/rss+xml"},
        {"pdf", "application/pdf"}, {"zip", "application/zip"}, {"woff", "application/font-woff"}, {"mp3", "audio/mpeg"}, {"ogg", "audio/ogg"}, {"mp4", "video/mp4"}, {"webm", "video/webm"}, {"swf", "application/x-shockwave-flash"}, {"rtf", "application/rtf"}, {"exe", "application/octet-stream"}, {"tiff", "image/tiff"}, {"svgz", "image/svg+xml"}, {"mml", "text/mathml"}, {"jar", "application/java-archive"}, {"doc", "application/msword"}, {"ps", "application/postscript"}, {"eps", "application/postscript"}, {"m3u8", "application/vnd.apple.mpegurl"}, {"xls", "application/vnd.ms-excel"}, {"ppt", "application/vnd.ms-powerpoint"}, {"eot", "application/vnd.ms-fontobject"},
        {"kml", "application/vnd.google-earth.kml+xml"}, {"kmz", "application/vnd.google-earth.kmz"}, {"7z", "application/x-7z-compressed"}, {"rar", "application/x-rar-compressed"}, {"rpm", "application/x-redhat-package-manager"}, {"pem", "application/x-x509-ca-cert"}, {"crt", "application/x-x509-ca-cert"}, {"der", "application/x-x509-ca-cert"}, {"xpi", "application/x-xpinstall"}, {"xspf", "application/xspf+xml"},
        {"docx", "application/vnd.openxmlformats-officedocument.wordprocessingml.document"}, {"xlsx", "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet"}, {"pptx", "application/vnd.openxmlformats-officedocument.presentationml.presentation"}, {"mid", "audio/midi"}, {"midi", "audio/midi"}, {"m4a", "audio/x-m4a"}, {"3gpp", "video/3gpp"}, {"3gp", "video/3gpp"}, {"ts", "video/mp2t"}, {"mpeg", "video/mpeg"}, {"mpg", "video/mpeg"}, {"mov", "video/quicktime"},
        {"flv", "video/x-flv"}, {"m4v", "video/x-m4v"}, {"wmv", "video/x-ms-wmv"}, {"avi", "video/x-msvideo"}, {"bin", "application/octet-stream"}, {"iso", "application/octet-stream"}, {"deb", "application/octet-stream"}, {"z", 0}, {"", 0}, {"htmlx", 0}, {"ht", 0}};
    int k = v_choose((int) (sizeof T / sizeof *T)); char *p = v_str(0, max); v_buf b; v_buf_init(&b, 40); if (v_choose(2)) v_buf_c(&b, '/'); v_buf_s(&b, p); if (!b.n || b.s[b.n - 1] == '/') v_buf_c(&b, 'n'); v_buf_c(&b, '.'); v_buf_s(&b, T[k][0]);
    for (size_t i = 0; p[i]; i++) v_assume(p[i] != '\\');
    V_CHECK(v_eq(br_mime_guess_content_type(b.s), T[k][1] ? T[k][1] : "application/octet-stream"), "content type"); v_reach(T[k][1] ? "known" : "unknown");
    // and without any extension
    v_buf_init(&b, 40); v_buf_s(&b, "/a.html/"); int dot = 0; for (size_t i = 0; p[i]; i++) if (p[i] == '.') dot = 1; else if (p[i] == '/') dot = 0;
    if (p[0] == '.' ) v_end();
    v_buf_s(&b, p); if (!dot) V_CHECK(v_eq(br_mime_guess_content_type(b.s), "application/octet-stream"), "a name without extension");
}
void v_main(void) { if (v_param(0) == 1) types(v_param(1)); else args(v_param(1), v_param(0) == 2); }
