// Package simlog replaces the standard log package: the lock is a simulated one, so a logger may be pre-empted between
// and inside calls to its writer like a real one.
package simlog

import (
	"fmt"
	"io"
	"runtime"
	"time"

	"simrt"
	"simrt/simos"
)

// Flags of the standard package.
const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

// Logger replaces log.Logger.
type Logger struct {
	mx     simrt.Mutex
	out    io.Writer
	prefix string
	flag   int
}

// New logger.
func New(out io.Writer, prefix string, flag int) *Logger {
	return &Logger{out: out, prefix: prefix, flag: flag}
}

var std = New(simos.Stderr, "", LstdFlags)

// Default logger.
func Default() *Logger { return std }

func itoa(b []byte, i, wid int) []byte { return append(b, fmt.Sprintf("%0*d", wid, i)...) }

func (l *Logger) header(b []byte, t time.Time, depth int, prefix string, flag int) []byte {
	if flag&Lmsgprefix == 0 {
		b = append(b, prefix...)
	}
	if flag&(Ldate|Ltime|Lmicroseconds) != 0 {
		if flag&LUTC != 0 {
			t = t.UTC()
		}
		if flag&Ldate != 0 {
			b = append(b, t.Format("2006/01/02 ")...)
		}
		if flag&(Ltime|Lmicroseconds) != 0 {
			b = append(b, t.Format("15:04:05")...)
			if flag&Lmicroseconds != 0 {
				b = append(b, '.')
				b = itoa(b, t.Nanosecond()/1e3, 6)
			}
			b = append(b, ' ')
		}
	}
	if flag&(Lshortfile|Llongfile) != 0 {
		_, file, line, ok := runtime.Caller(depth + 1)
		if !ok {
			file, line = "???", 0
		}
		if flag&Lshortfile != 0 {
			for i := len(file) - 1; i > 0; i-- {
				if file[i] == '/' {
					file = file[i+1:]
					break
				}
			}
		}
		b = append(b, fmt.Sprintf("%s:%d: ", file, line)...)
	}
	if flag&Lmsgprefix != 0 {
		b = append(b, prefix...)
	}
	return b
}

// Output writes one line. Like the standard logger it formats outside and writes inside the lock.
func (l *Logger) Output(depth int, s string) error { return l.output(depth+1, s) }

func (l *Logger) output(depth int, s string) error {
	simrt.Y(simrt.CurSite)
	prefix, flag := l.prefix, l.flag
	b := l.header(nil, simrt.TimeNow(), depth, prefix, flag)
	b = append(b, s...)
	if len(s) == 0 || s[len(s)-1] != '\n' {
		b = append(b, '\n')
	}
	l.mx.Lock()
	defer l.mx.Unlock()
	_, err := l.out.Write(b)
	return err
}

// Print family.
func (l *Logger) Print(v ...any)            { l.output(2, fmt.Sprint(v...)) }
func (l *Logger) Printf(f string, v ...any) { l.output(2, fmt.Sprintf(f, v...)) }
func (l *Logger) Println(v ...any)          { l.output(2, fmt.Sprintln(v...)) }

// Fatal family.
func (l *Logger) Fatal(v ...any)            { l.output(2, fmt.Sprint(v...)); simrt.Exit(1) }
func (l *Logger) Fatalf(f string, v ...any) { l.output(2, fmt.Sprintf(f, v...)); simrt.Exit(1) }
func (l *Logger) Fatalln(v ...any)          { l.output(2, fmt.Sprintln(v...)); simrt.Exit(1) }

// Panic family.
func (l *Logger) Panic(v ...any)            { s := fmt.Sprint(v...); l.output(2, s); panic(s) }
func (l *Logger) Panicf(f string, v ...any) { s := fmt.Sprintf(f, v...); l.output(2, s); panic(s) }
func (l *Logger) Panicln(v ...any)          { s := fmt.Sprintln(v...); l.output(2, s); panic(s) }

// Flags of the logger.
func (l *Logger) Flags() int { return l.flag }

// SetFlags of the logger.
func (l *Logger) SetFlags(f int) { l.flag = f }

// Prefix of the logger.
func (l *Logger) Prefix() string { return l.prefix }

// SetPrefix of the logger.
func (l *Logger) SetPrefix(p string) { l.prefix = p }

// Writer of the logger.
func (l *Logger) Writer() io.Writer { l.mx.Lock(); defer l.mx.Unlock(); return l.out }

// SetOutput of the logger.
func (l *Logger) SetOutput(w io.Writer) { l.mx.Lock(); defer l.mx.Unlock(); l.out = w }

// Package-level functions.
func Print(v ...any)                   { std.output(2, fmt.Sprint(v...)) }
func Printf(f string, v ...any)        { std.output(2, fmt.Sprintf(f, v...)) }
func Println(v ...any)                 { std.output(2, fmt.Sprintln(v...)) }
func Fatal(v ...any)                   { std.output(2, fmt.Sprint(v...)); simrt.Exit(1) }
func Fatalf(f string, v ...any)        { std.output(2, fmt.Sprintf(f, v...)); simrt.Exit(1) }
func Fatalln(v ...any)                 { std.output(2, fmt.Sprintln(v...)); simrt.Exit(1) }
func Panic(v ...any)                   { s := fmt.Sprint(v...); std.output(2, s); panic(s) }
func Panicf(f string, v ...any)        { s := fmt.Sprintf(f, v...); std.output(2, s); panic(s) }
func Panicln(v ...any)                 { s := fmt.Sprintln(v...); std.output(2, s); panic(s) }
func Output(depth int, s string) error { return std.output(depth+1, s) }
func Flags() int                       { return std.Flags() }
func SetFlags(f int)                   { std.SetFlags(f) }
func Prefix() string                   { return std.Prefix() }
func SetPrefix(p string)               { std.SetPrefix(p) }
func Writer() io.Writer                { return std.Writer() }
func SetOutput(w io.Writer)            { std.SetOutput(w) }
