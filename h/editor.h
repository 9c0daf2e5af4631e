// Shared editor fixture: the real line_editor over a queue of input bytes and a scripted terminal.
#pragma once
#include <core/base.h>
#include <core/str.h>
#include <core/settings.h>
#include <core/os.h>
#include <core/singleton.h>
#include <lib/line_editor.h>
#include <lib/editor_module.h>
#include <lib/rl_integration.h>
#include <lib/cmd_tokenisers.h>
#include <lib/line_queue.h>
#include <lib/host_callbacks.h>
#include <terminal/printer.h>
#include <terminal/terminal_in.h>
#include <terminal/terminal_out.h>
#include <terminal/terminal_helpers.h>
extern "C" {
#include <readline/readline.h>
#include <readline/rldefs.h>
#include <readline/rlprivate.h>
#include <readline/history.h>
}

class key_tester;
class vf_in : public terminal_in, public singleton<vf_in>
{
public:
    int32 begin(bool) override { return ++m_began; }
    int32 end(bool) override { return --m_began; }
    void override_handle() override {}
    bool available(uint32) override { return m_head < m_q.size(); }
    void select(input_idle*, uint32) override {}
    int32 read() override { return m_resize ? (m_resize = false, int32(terminal_in::input_terminal_resize)) : m_head < m_q.size() ? int32((unsigned char)m_q[m_head++]) : int32(terminal_in::input_none); }
    int32 peek() override { return m_head < m_q.size() ? int32((unsigned char)m_q[m_head]) : int32(terminal_in::input_none); }
    bool send_terminal_request(const char*, const char*, const char*, uint32, uint32, str_base& out) override { out.clear(); return false; }
    key_tester* set_key_tester(key_tester* k) override { key_tester* r = m_k; m_k = k; return r; }
    void push(const std::string& s) { if (m_head == m_q.size()) { m_q.clear(); m_head = 0; } m_q += s; }
    void resize() { m_resize = true; }
private:
    int32 m_began = 0; key_tester* m_k = nullptr; std::string m_q; size_t m_head = 0; bool m_resize = false;
};

class vf_out : public terminal_out
{
public:
    int cols = 80, rows = 25;
    std::function<void(const char*, int)> on_write;
    std::function<bool(int16&, int16&)> on_cursor;
    void open() override {} void begin() override {} void end() override {} void close() override {}
    void write(const char* s, int32 n) override { if (on_write) on_write(s, n < 0 ? int(strlen(s)) : n); }
    void flush() override {}
    int32 get_columns() const override { return cols; }
    int32 get_rows() const override { return rows; }
    int32 get_top() const override { return 0; }
    bool get_cursor_pos(int16& x, int16& y) const override { if (on_cursor) return on_cursor(x, y); x = y = 0; return false; }
    bool get_line_text(int32, str_base& out) const override { out.clear(); return false; }
    int32 is_line_default_color(int32) const override { return true; }
    int32 line_has_color(int32, const BYTE*, int32, BYTE) const override { return false; }
    int32 find_line(int32, int32, const char*, find_line_mode, const BYTE*, int32, BYTE) const override { return 0; }
    void set_attributes(const attributes) {}
};

class vf_clip : public os::clipboard_provider
{
public:
    vf_clip() { os::set_clipboard_provider(this); }
    ~vf_clip() { os::set_clipboard_provider(nullptr); }
    bool get_clipboard_text(str_base& out) override { out.clear(); out.concat(text.c_str(), int32(text.size())); return !text.empty(); }
    bool set_clipboard_text(const char* s, int32 n) override { text.assign(s, n); return true; }
    std::string text;
};

void vf_editor_init(const char* bindings = "");          // once per process (pbt::g_init)
void vf_bind(const char* seq_readline_syntax, const char* command);

class vf_editor
{
public:
    vf_editor(int cols = 80, int rows = 25, host_callbacks* cb = nullptr, const char* prompt = "$ ", const char* rprompt = nullptr, bool tokenisers = true);
    ~vf_editor();
    void begin();                                        // starts the line
    bool feed(const std::string& keys);                  // false when the line is done
    bool resize(int cols, int rows);
    std::string line() const { return std::string(rl_line_buffer, rl_end); }
    std::string take();                                  // the accepted line
    line_editor* ed() { return m_ed; }
    vf_in in; vf_out out; vf_clip clip; line_queue queue;
    bool done = false;
private:
    printer m_printer; printer_context m_pc;
    cmd_command_tokeniser m_ct; cmd_word_tokeniser m_wt;
    line_editor* m_ed;
};
