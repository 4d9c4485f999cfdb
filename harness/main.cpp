#include "h.hpp"
#include <cmath>
#include <cstdio>
#include <cxxabi.h>
#include <iostream>
#include <typeinfo>
#include <unistd.h>
#include <fcntl.h>
#include <kj/exception.h>
#include <H5Cpp.h>

State st;
std::map<std::string, cmd_fn> &commands() {
    static std::map<std::string, cmd_fn> c;
    return c;
}

std::string jnum(double v) {
    if (std::isnan(v)) return "\"nan\"";
    if (std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
    char buf[64];
    snprintf(buf, sizeof buf, "%.17g", v);
    return buf;
}
std::string jstr(const std::string &v) {
    std::string b = "\"";
    for (unsigned char c : v) {
        if (c == '"' || c == '\\') {
            b += '\\';
            b += c;
        } else if (c < 32 || c > 126) {
            char t[8];
            snprintf(t, sizeof t, "\\u%04x", c);
            b += t;
        } else
            b += c;
    }
    return b + "\"";
}
std::string jiv(const std::vector<int64_t> &v) {
    std::string b = "[";
    for (size_t i = 0; i < v.size(); ++i) b += (i ? "," : "") + std::to_string(v[i]);
    return b + "]";
}
std::string jdv(const std::vector<double> &v) {
    std::string b = "[";
    for (size_t i = 0; i < v.size(); ++i) b += (i ? "," : "") + jnum(v[i]);
    return b + "]";
}
void Out::num(const char *k, double v) { raw(k, jnum(v)); }
void Out::str(const char *k, const std::string &v) { raw(k, jstr(v)); }
void Out::iv(const char *k, const std::vector<int64_t> &v) { raw(k, jiv(v)); }
void Out::dv(const char *k, const std::vector<double> &v) { raw(k, jdv(v)); }

static reg r_reset("reset", [](In &, Out &) { st = State(); });

int main() {
    // keep our JSON channel apart from anything the library prints
    int out_fd = dup(1);
    int null   = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    FILE *out = fdopen(out_fd, "w");
    H5::Exception::dontPrint();
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        In                 in;
        for (std::string t; is >> t;) in.tok.push_back(t);
        if (in.tok.empty()) continue;
        Out         o;
        std::string result;
        try {
            auto name = in.s();
            if (name[0] == '@') st.unit = std::stoi(name.substr(1)), name = in.s(); // @K command: the unit from here on
            auto it   = commands().find(name);
            if (it == commands().end()) throw bad_command("no such command " + name);
            it->second(in, o);
            result = "{\"ok\":true" + std::string(o.b.empty() ? "" : ",") + o.b + "}";
        } catch (const bad_command &e) {
            result = "{\"bad\":" + jstr(e.what()) + "}";
        } catch (const std::exception &e) {
            int   status;
            char *n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &status);
            result  = "{\"ok\":false,\"exc\":" + jstr(n ? n : "?") + ",\"msg\":" + jstr(std::string(e.what()).substr(0, 200)) + "}";
            free(n);
        } catch (const kj::Exception &e) {
            result = "{\"ok\":false,\"exc\":\"kj::Exception\",\"msg\":\"\"}";
        } catch (const H5::Exception &e) {
            result = "{\"ok\":false,\"exc\":\"H5::Exception\",\"msg\":\"\"}";
        } catch (...) {
            result = "{\"ok\":false,\"exc\":\"other\",\"msg\":\"\"}";
        }
        fputs(result.c_str(), out);
        fputc('\n', out);
        fflush(out);
    }
    return 0;
}
