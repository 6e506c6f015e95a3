// Runs scripts with the library it was built with (C25).
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

#include "machine.h"

static bool writeAllOf(int fd, const char* p, std::size_t n) {
    while (n > 0) {
        ssize_t r = write(fd, p, n);
        if (r <= 0) {
            return false;
        }
        p += r;
        n -= static_cast<std::size_t>(r);
    }
    return true;
}

static std::string execute(const std::string& text) {
    Script s;
    if (!decodeScript(text, &s)) {
        return "not a script";
    }
    Machine m;
    for (std::size_t i = 0; i < s.size(); ++i) {
        m.run(s[i]);
    }
    return m.trace();
}

// in a child: what is written and how it ends
static std::string executeApart(const std::string& text) {
    int fd[2];
    if (pipe(fd) != 0) {
        return "no pipe";
    }
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        dup2(fd[1], 1);
        dup2(fd[1], 2);
        close(fd[1]);
        alarm(20);
        std::string t = execute(text);
        writeAllOf(1, t.data(), t.size());
        _exit(77);
    }
    close(fd[1]);
    std::string out;
    char buf[4096];
    ssize_t r;
    while ((r = read(fd[0], buf, sizeof(buf))) > 0) {
        out.append(buf, static_cast<std::size_t>(r));
    }
    close(fd[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    sprintf(buf, "\nstatus %d\n", status);
    return out + buf;
}

// *size is the length of what is returned, released with free()
extern "C" char* verif_run(const char* data, std::size_t n, int apart, std::size_t* size) {
    std::string text(data, n);
    std::string out = apart ? executeApart(text) : execute(text);
    *size = out.size();
    char* r = static_cast<char*>(malloc(out.size() + 1));
    memcpy(r, out.data(), out.size());
    r[out.size()] = 0;
    return r;
}
