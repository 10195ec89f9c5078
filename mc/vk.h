// Harness interface of the virtual kernel.
#pragma once
#include <cstdint>
#include <cstddef>
namespace vk
{
// Which deviating answers the virtual kernel may give; each is a choice costing one deviation.
enum Faults : unsigned
{
    SHORT_RECV = 1,      // recv returns fewer bytes than available (every size 1..n-1 up to 3 variants)
    EAGAIN_RECV = 2,     // recv answers EAGAIN although readable
    RESET_RECV = 4,      // recv answers ECONNRESET
    SHORT_SEND = 8,      // send takes fewer bytes
    EAGAIN_SEND = 16,    // send answers EAGAIN
    RESET_SEND = 32,     // send answers ECONNRESET / EPIPE
    CONNECT = 64,        // connect: at once / refused at once / refused later / never answers
    ACCEPT = 128,        // accept: EAGAIN, ECONNABORTED, EMFILE
    EINTR_IO = 256,      // recv/send answer EINTR
    SPURIOUS_POLL = 512, // (unused)
    MSGSIZE = 1024,      // sendto answers EMSGSIZE
    DUPFAIL = 2048,      // dup fails
    SOCKFAIL = 4096,     // socket()/pipe() fail
    FCNTLFAIL = 8192,
    GETSOCKOPT = 16384,  // getsockopt(SO_ERROR) fails
    THREADFAIL = 32768,  // no further thread can be created
    EPOLLFAIL = 65536,   // epoll_ctl cannot register another descriptor
};
void faults(unsigned mask, int budget = 2);
int  faults_used();
void set_sock_capacity(std::size_t n); // receive buffer per stream endpoint
void set_pipe_capacity(std::size_t n);
bool is_open(int fd);
int  open_count();
void descriptor_zero();              // the process has no standard input: the first descriptor opened is 0 (call this first)
long closes();                       // close() calls that closed something
int  epoll_armed(int fd);            // number of enabled registrations on this descriptor
int  epoll_registered_total();       // all enabled one-shot registrations
int  refs(int fd);                   // descriptors sharing the open file description
bool nonblocking(int fd);
long bytes_sent_total();             // bytes taken from send()
void reset_peer(int fd);             // connection reset: pending data lost, ECONNRESET to the peer of fd
int  so_type(int fd);
const char* last_sys();
bool has_peer(int fd);
int  backlog(int fd);                 // of a listening socket
int  ofd_id(int fd);
bool timer_armed();
long sendto_count();
void set_full(int fd, bool full);     // whether a datagram socket has no room to send
void set_sock_error(int fd, int e);    // a datagram socket's pending error (say, an ICMP message)
void no_faults(int fd);               // this end always gets the normal answers
long sent_on(int fd);                 // bytes taken from / given to this end
long received_on(int fd);
void refuse_with(int e);              // the error of connections that are refused later on
void answer_connects(int e);          // connections that are never answered fail now
long injected(int e);                // how often this error was answered because of a fault
} // namespace vk
