#include "hpch.h"
#include "editor.h"
#include <lib/recognizer.h>
#include "rl/rl_commands.h"
void init_readline_funmap();
void initialise_readline(const char*, const char*, const char*, bool);
void set_noasync_recognizer();
static vf_editor* s_cur = nullptr;
extern "C" void __wrap__rl_get_screen_size(int, int) { if (s_cur) { _rl_set_screen_size(s_cur->out.rows, s_cur->out.cols); } }
static LONGLONG s_ticks = 0;
void vf_editor_init(const char*)
{
    settings::TEST_set_ever_loaded();
    os::set_shellname(L"shell");
    set_noasync_recognizer();
    _rl_utf8locale = 1;
    freopen("NUL", "w", stderr);
    SetCurrentDirectoryW(pbt::ref_utf16(pbt::scratch()).c_str());
    vf_out quiet; printer pr(quiet); printer_context pc(&quiet, &pr);
    initialise_readline("clink", pbt::scratch().c_str(), nullptr, true);
    // initialise_readline's rl_initialize looks at the locale, which this platform's CRT lacks.
    _rl_utf8locale = 1;
    _rl_bell_preference = NO_BELL;
}
void vf_bind(const char* seq, const char* command)
{
    rl_command_func_t* f = rl_named_function(command);
    if (!f) throw pbt::Fail{std::string("no command ") + command};
    rl_bind_keyseq_in_map(seq, f, emacs_standard_keymap);
}
vf_editor::vf_editor(int cols, int rows, host_callbacks* cb, const char* prompt, const char* rprompt, bool tok)
: m_printer((out.cols = cols, out.rows = rows, out))
, m_pc(&out, &m_printer)
{
    s_cur = this;
    line_editor::desc d(&in, &out, &m_printer, cb);
    d.prompt = prompt; d.rprompt = rprompt;
    if (tok) { d.command_tokeniser = &m_ct; d.word_tokeniser = &m_wt; }
    m_ed = line_editor_create(d);
}
vf_editor::~vf_editor() { line_editor_destroy(m_ed); s_cur = nullptr; }
void vf_editor::begin() { done = !m_ed->update(); }
bool vf_editor::feed(const std::string& keys)
{
    in.push(keys);
    int spins = 0;
    while (!done && (rl_has_queued_input() || in.available(0)))
    {
        if (++spins > 100000) throw pbt::Fail{"the editor does not consume its input"};
        if (!m_ed->update()) done = true;
    }
    return !done;
}
bool vf_editor::resize(int cols, int rows)
{
    out.cols = cols; out.rows = rows; in.resize();
    if (!m_ed->update()) done = true;
    return !done;
}
std::string vf_editor::take() { str<> s; m_ed->get_line(s); return std::string(s.c_str(), s.length()); }
