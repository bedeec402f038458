// A plugin that records every call it gets (one JSON line each, with the thread) and whose verdicts follow from the
// arguments, so that an oracle can predict them. See checks/p14.py and checks/p23.py.
#include "flashmq_plugin.h"
#include <atomic>
#include <fcntl.h>
#include <mutex>
#include <set>
#include <stdexcept>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include <cstring>
#include <list>

namespace {
int g_fd = -1;
std::mutex g_mutex;
std::list<std::thread> g_threads;
std::set<void *> g_live;       // thread data that is allocated
std::atomic<uint64_t> g_seq{0};

std::string esc(std::string_view s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s)
    {
        if (c < 32 || c == '"' || c == '\\' || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }   // bytes as latin-1
        else o += static_cast<char>(c);
    }
    return o + "\"";
}

struct Line
{
    std::string s;
    explicit Line(const char *fn) { s = "{\"fn\":\"" + std::string(fn) + "\",\"tid\":" + std::to_string(syscall(SYS_gettid)); }
    Line &add(const char *k, std::string_view v) { s += ",\"" + std::string(k) + "\":" + esc(v); return *this; }
    Line &num(const char *k, long v) { s += ",\"" + std::string(k) + "\":" + std::to_string(v); return *this; }
    Line &opt(const char *k, const std::optional<std::string> &v) { if (v) add(k, *v); return *this; }
    Line &list(const char *k, const std::vector<std::string> &v)
    {
        s += ",\"" + std::string(k) + "\":[";
        for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + esc(v[i]);
        s += "]"; return *this;
    }
    Line &props(const std::vector<std::pair<std::string, std::string>> *v)
    {
        if (!v) return *this;
        s += ",\"props\":[";
        for (size_t i = 0; i < v->size(); i++) s += (i ? ",[" : "[") + esc((*v)[i].first) + "," + esc((*v)[i].second) + "]";
        s += "]"; return *this;
    }
    ~Line()
    {
        s += ",\"seq\":" + std::to_string(g_seq++) + "}\n";
        std::lock_guard<std::mutex> l(g_mutex);
        if (g_fd >= 0) { ssize_t n = write(g_fd, s.data(), s.size()); (void)n; }
    }
};

struct ThreadMem
{
    uint64_t magic = 0x1122334455667788ull;
    bool inited = false;
    std::thread::id id = std::this_thread::get_id();
    int evfd = -1;
    std::shared_ptr<int> evp;
    long ticks = 0;
};

ThreadMem *mem(void *p, const char *fn, bool init = true)
{
    ThreadMem *m = static_cast<ThreadMem *>(p);
    bool known;
    { std::lock_guard<std::mutex> l(g_mutex); known = g_live.count(p) > 0; }
    if (!known) { Line("BAD").add("what", std::string("call with unknown thread data: ") + fn); return nullptr; }
    if (m->id != std::this_thread::get_id()) Line("BAD").add("what", std::string("call in another thread than allocated: ") + fn);
    if (init && !m->inited) Line("BAD").add("what", std::string("call while not initialized: ") + fn);
    return m;
}

bool starts(std::string_view s, std::string_view p) { return s.substr(0, p.size()) == p; }

AuthResult word(std::string_view w)
{
    if (w == "good") return AuthResult::success;
    if (w == "bad") return AuthResult::login_denied;
    if (w == "acl") return AuthResult::acl_denied;
    if (w == "err") return AuthResult::error;
    if (w == "unavail") return AuthResult::server_not_available;
    if (w == "method") return AuthResult::auth_method_not_supported;
    if (w == "more") return AuthResult::auth_continue;
    if (w == "throw") throw std::runtime_error("thrown on request");
    return AuthResult::login_denied;
}

/* verdict strings: good | bad | err | unavail | throw | async-<ms>-<verdict> (from another thread) | delay-<ms>-<verdict> (delay argument) | task-<ms>-<verdict> (from the loop) | never
 * twice-<verdict>: continues two times */
AuthResult verdict(const std::string &v, const std::weak_ptr<Client> &client, const std::string &method, const std::string &data)
{
    if (starts(v, "async-") || starts(v, "delay-") || starts(v, "task-"))
    {
        const size_t a = v.find('-'), b = v.find('-', a + 1);
        const int ms = atoi(v.c_str() + a + 1);
        const AuthResult r = word(v.substr(b + 1));
        const std::weak_ptr<Client> c = client;
        if (v[0] == 'd') flashmq_continue_async_authentication_v4(c, r, method, data, ms);
        else if (v[0] == 't') flashmq_add_task([c, r, method, data]() { flashmq_continue_async_authentication_v4(c, r, method, data, 0); }, ms);
        else
        {
            std::lock_guard<std::mutex> l(g_mutex);
            g_threads.emplace_back([c, r, method, data, ms]() { usleep(ms * 1000); flashmq_continue_async_authentication_v4(c, r, method, data, 0); });
        }
        return AuthResult::async;
    }
    if (v == "never") return AuthResult::async;
    return word(v);
}
}

#define EXP __attribute__((visibility("default")))
extern "C" {
EXP int flashmq_plugin_version() { return FLASHMQ_PLUGIN_VERSION; }

EXP void flashmq_plugin_main_init(std::unordered_map<std::string, std::string> &o)
{
    if (g_fd < 0) g_fd = open(o["log"].c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    Line("main_init");
}
EXP void flashmq_plugin_main_deinit(std::unordered_map<std::string, std::string> &)
{
    std::list<std::thread> t;
    { std::lock_guard<std::mutex> l(g_mutex); t.swap(g_threads); }
    for (auto &x : t) x.join();
    Line("main_deinit");
}
EXP void flashmq_plugin_allocate_thread_memory(void **d, std::unordered_map<std::string, std::string> &)
{
    ThreadMem *m = new ThreadMem; *d = m;
    { std::lock_guard<std::mutex> l(g_mutex); g_live.insert(m); }
    Line("allocate").num("mem", reinterpret_cast<long>(m));
}
EXP void flashmq_plugin_deallocate_thread_memory(void *d, std::unordered_map<std::string, std::string> &)
{
    ThreadMem *m = mem(d, "deallocate", false);
    if (!m) return;
    Line("deallocate").num("mem", reinterpret_cast<long>(m)).num("inited", m->inited);
    { std::lock_guard<std::mutex> l(g_mutex); g_live.erase(m); }
    delete m;
}
EXP void flashmq_plugin_init(void *d, std::unordered_map<std::string, std::string> &o, bool reloading)
{
    ThreadMem *m = mem(d, "init", false);
    Line("init").num("mem", reinterpret_cast<long>(m)).num("inited", m ? m->inited : -1).num("reloading", reloading).add("opt", o["opt"]);
    if (m) m->inited = true;
    if (o["init"] == "throw") throw std::runtime_error("init throws");
    if (o["init"] == "defer") { flashmq_defer_thread_ready(); flashmq_add_task([]() { Line("ready"); flashmq_signal_thread_ready(); }, 300); }
}
EXP void flashmq_plugin_deinit(void *d, std::unordered_map<std::string, std::string> &, bool reloading)
{
    ThreadMem *m = mem(d, "deinit", false);
    Line("deinit").num("mem", reinterpret_cast<long>(m)).num("inited", m ? m->inited : -1).num("reloading", reloading);
    if (m)
    {
        m->inited = false;
        if (m->evfd >= 0) { try { flashmq_poll_remove_fd(m->evfd); } catch (...) {} close(m->evfd); m->evfd = -1; m->evp.reset(); }
    }
}
EXP void flashmq_plugin_periodic_event(void *d) { mem(d, "periodic"); Line("periodic"); }

EXP bool flashmq_plugin_alter_subscription(void *d, const std::string &clientid, std::string &topic, const std::vector<std::string> &sub, uint8_t &qos,
                                           const std::vector<std::pair<std::string, std::string>> *props)
{
    mem(d, "alter_subscription");
    Line("alter_subscription").add("clientid", clientid).add("topic", topic).list("subtopics", sub).num("qos", qos).props(props);
    bool changed = false;
    if (topic.find("alter-sub") != std::string::npos) { topic = "altered/" + clientid; changed = true; }
    if (topic.find("alter-unshare") != std::string::npos) { topic = topic.substr(topic.find('/', 7) + 1); changed = true; }
    if (topic.find("alter-share") != std::string::npos && !starts(topic, "$share")) { topic = "$share/pg/" + topic; changed = true; }
    if (topic.find("alter-qos") != std::string::npos && qos > 0) { qos = 0; changed = true; }
    if (topic.find("alter-throw") != std::string::npos) throw std::runtime_error("alter_subscription throws");
    return changed;
}

EXP bool flashmq_plugin_alter_publish(void *d, const std::string &clientid, std::string &topic, const std::vector<std::string> &sub, std::string_view payload, uint8_t &qos,
                                      bool &retain, std::optional<std::string> &corr, std::optional<std::string> &resp, std::optional<std::string> &ct,
                                      std::vector<std::pair<std::string, std::string>> *props)
{
    mem(d, "alter_publish");
    Line("alter_publish").add("clientid", clientid).add("topic", topic).list("subtopics", sub).add("payload", payload).num("qos", qos).num("retain", retain)
        .opt("corr", corr).opt("resp", resp).opt("ct", ct).props(props);
    bool changed = false;
    if (topic.find("alter-topic") != std::string::npos) { topic = "altered/topic/" + clientid; changed = true; }
    if (topic.find("alter-qosup") != std::string::npos) { qos = 2; changed = true; }
    if (topic.find("alter-qosdown") != std::string::npos) { qos = 0; changed = true; }
    if (topic.find("alter-retain") != std::string::npos) { retain = true; }
    if (topic.find("alter-noretain") != std::string::npos) { retain = false; }
    if (topic.find("alter-prop") != std::string::npos)
    {
        corr = "CORR"; resp = "resp/topic"; ct = "text/altered"; changed = true;
        if (props) props->push_back({"added", "by plugin"});
    }
    if (topic.find("alter-throw") != std::string::npos) throw std::runtime_error("alter_publish throws");
    return changed;
}

EXP AuthResult flashmq_plugin_login_check(void *d, const std::string &clientid, const std::string &username, const std::string &password,
                                          const std::vector<std::pair<std::string, std::string>> *props, const std::weak_ptr<Client> &client)
{
    mem(d, "login_check");
    Line("login_check").add("clientid", clientid).add("username", username).add("password", password).props(props).num("client", !client.expired());
    return verdict(password, client, "", "");
}

EXP void flashmq_plugin_client_disconnected(void *d, const std::string &clientid)
{
    mem(d, "client_disconnected"); Line("client_disconnected").add("clientid", clientid);
    if (clientid.find("throw") != std::string::npos) throw std::runtime_error("client_disconnected throws");
}

EXP void flashmq_plugin_on_unsubscribe(void *d, const std::weak_ptr<Session> &session, const std::string &clientid, const std::string &username, const std::string &topic,
                                       const std::vector<std::string> &sub, const std::string &share, const std::vector<std::pair<std::string, std::string>> *props)
{
    mem(d, "on_unsubscribe");
    Line("on_unsubscribe").add("clientid", clientid).add("username", username).add("topic", topic).list("subtopics", sub).add("share", share).props(props).num("session", !session.expired());
    if (topic.find("throw") != std::string::npos) throw std::runtime_error("on_unsubscribe throws");
}

EXP AuthResult flashmq_plugin_acl_check(void *d, const AclAccess access, const std::string &clientid, const std::string &username, const std::string &topic,
                                        const std::vector<std::string> &sub, const std::string &share, std::string_view payload, const uint8_t qos, const bool retain,
                                        const std::optional<std::string> &corr, const std::optional<std::string> &resp, const std::optional<std::string> &ct,
                                        const std::optional<std::chrono::time_point<std::chrono::steady_clock>> expires,
                                        const std::vector<std::pair<std::string, std::string>> *props)
{
    ThreadMem *m = mem(d, "acl_check");
    {
        Line l("acl_check");
        l.num("access", static_cast<int>(access)).add("clientid", clientid).add("username", username).add("topic", topic).list("subtopics", sub).add("share", share)
            .add("payload", payload).num("qos", qos).num("retain", retain).opt("corr", corr).opt("resp", resp).opt("ct", ct).props(props);
        if (expires) l.num("expires", std::chrono::duration_cast<std::chrono::seconds>(*expires - std::chrono::steady_clock::now()).count());
    }
    const char *acc = access == AclAccess::read ? "r" : access == AclAccess::write ? "w" : access == AclAccess::subscribe ? "s" : "l";
    if (topic.find(std::string("deny-") + acc) != std::string::npos) return AuthResult::acl_denied;
    if (topic.find(std::string("error-") + acc) != std::string::npos) return AuthResult::error;
    if (topic.find(std::string("throw-") + acc) != std::string::npos) throw std::runtime_error("acl_check throws");
    if (access == AclAccess::write && topic.find("no-set-retained") != std::string::npos) return AuthResult::success_without_setting_retained;
    if (access == AclAccess::subscribe && topic.find("no-retained") != std::string::npos) return AuthResult::success_without_retained_delivery;
    if ((access == AclAccess::write || access == AclAccess::subscribe) && topic.find("just-drop") != std::string::npos) return AuthResult::success_but_drop;
    if (access == AclAccess::read && !clientid.empty() && topic.find("not-for-" + clientid) != std::string::npos) return AuthResult::acl_denied;
    if (access == AclAccess::write && starts(topic, "cmd/"))
    {
        const std::string pay(payload);
        const std::string &what = sub.at(1);
        if (what == "publish")      // cmd/publish/<qos>/<retain>
            flashmq_publish_message("out/" + sub.at(2), atoi(sub.at(2).c_str()), sub.at(3) == "1", pay, sub.size() > 4 ? atoi(sub.at(4).c_str()) : 0);
        else if (what == "publish-full")
        {
            std::vector<std::pair<std::string, std::string>> up{{"k", "v"}, {"k", "v2"}};
            const std::string a = "resp/t", b = "corr\0x", c = "ctype";
            flashmq_publish_message("out/full", 1, false, pay, 100, &up, &a, &b, &c);
        }
        else if (what == "publish-thread")   // from a thread of the plugin's own
        {
            std::lock_guard<std::mutex> l(g_mutex);
            g_threads.emplace_back([pay]() { for (int i = 0; i < 20; i++) flashmq_publish_message("out/thread", 1, false, pay + std::to_string(i)); });
        }
        else if (what == "join")    // cmd/join: end of the threads started so far
        {
            std::list<std::thread> t;
            { std::lock_guard<std::mutex> l(g_mutex); t.swap(g_threads); }
            for (auto &x : t) x.join();
        }
        else if (what == "task")    // cmd/task/<ms>
            flashmq_add_task([pay]() { Line("task").add("payload", pay); flashmq_publish_message("out/task", 1, false, pay); }, atoi(sub.at(2).c_str()));
        else if (what == "canceltask")
        {
            uint32_t id = flashmq_add_task([pay]() { flashmq_publish_message("out/task", 1, false, pay); }, atoi(sub.at(2).c_str()));
            flashmq_remove_task(id);
        }
        else if (what == "kick" || what == "kill" || what == "addsub" || what == "delsub")     // cmd/kick/<clientid>/<reason>
        {
            std::weak_ptr<Session> s;
            flashmq_get_session_pointer(sub.at(2), "", s);
            if (what == "kick") flashmq_plugin_remove_client_v4(s, false, static_cast<ServerDisconnectReasons>(atoi(pay.c_str())));
            else if (what == "kill") flashmq_plugin_remove_client_v4(s, true, static_cast<ServerDisconnectReasons>(atoi(pay.c_str())));
            else if (what == "addsub") Line("addsub").num("result", flashmq_plugin_add_subscription(s, pay, 1, false, false, 7));
            else flashmq_plugin_remove_subscription_v4(s, pay);
        }
        else if (what == "addr")
        {
            std::weak_ptr<Session> s; std::weak_ptr<Client> c; std::string text; sockaddr_storage ss{}; socklen_t n = sizeof ss;
            flashmq_get_session_pointer(clientid, username, s); flashmq_get_client_pointer(s, c);
            flashmq_get_client_address_v4(c, &text, reinterpret_cast<sockaddr *>(&ss), &n);
            Line("addr").add("text", text).num("family", ss.ss_family).num("len", n);
        }
        else if (what == "poll" && m)
        {
            if (m->evfd < 0) { m->evfd = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC); m->evp = std::make_shared<int>(m->evfd); flashmq_poll_add_fd(m->evfd, 1 /* EPOLLIN */, m->evp); }
            uint64_t one = 1; ssize_t n = write(m->evfd, &one, 8); (void)n;
        }
        return AuthResult::success_but_drop;
    }
    return AuthResult::success;
}

EXP AuthResult flashmq_plugin_extended_auth(void *d, const std::string &clientid, ExtendedAuthStage stage, const std::string &method, const std::string &data,
                                            const std::vector<std::pair<std::string, std::string>> *props, std::string &ret, std::string &username, const std::weak_ptr<Client> &client)
{
    mem(d, "extended_auth");
    Line("extended_auth").add("clientid", clientid).num("stage", static_cast<int>(stage)).add("method", method).add("data", data).add("username", username).props(props).num("client", !client.expired());
    if (method != "M") return AuthResult::auth_method_not_supported;
    // data: "<verdict>[:user]"
    const size_t c = data.find(':');
    if (c != std::string::npos) username = data.substr(c + 1);
    const std::string v = data.substr(0, c);
    ret = "answer to " + v;
    return verdict(v, client, method, "answer to " + v);
}

EXP void flashmq_plugin_poll_event_received(void *d, int fd, uint32_t events, const std::weak_ptr<void> &p)
{
    mem(d, "poll");
    uint64_t v = 0; ssize_t n = read(fd, &v, 8);
    std::shared_ptr<int> q = std::static_pointer_cast<int>(p.lock());
    Line("poll").num("n", n).num("events", events).num("p", q && *q == fd);
    if (n == 8) for (uint64_t i = 0; i < v; i++) flashmq_publish_message("out/poll", 1, false, "poll");
}
}
