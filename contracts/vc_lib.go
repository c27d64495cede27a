package thrift

import (
	"io"
	"log"
	"strconv"
)

// ---- models of library functions that have no effect the properties speak about

//vc:model log.New
func vcModelLogNew(out io.Writer, prefix string, flag int) *log.Logger { return new(log.Logger) }

//vc:model (*log.Logger).Print (*log.Logger).Println
func vcModelLogPrint(l *log.Logger, v ...interface{}) {}

//vc:model (*log.Logger).Printf
func vcModelLogPrintf(l *log.Logger, f string, v ...interface{}) {}

// texts made by fmt are arbitrary: no property speaks about the wording
//
//vc:model fmt.Sprintf
func vcModelSprintf(format string, a ...interface{}) string { return vString("text") }

//vc:model fmt.Sprint fmt.Sprintln
func vcModelSprint(a ...interface{}) string { return vString("text") }

//vc:model strconv.Itoa
func vcModelItoa(i int) string { return vcItoa(i) }

// decimal text of an integer; only that equal integers have equal texts is used
//
//vc:opaque
func vcItoa(i int) string { return strconv.Itoa(i) }
