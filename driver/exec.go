package main

import (
	"bytes"
	"encoding/hex"
	"os/exec"
	"runtime"
	"syscall"
)

// execCmd runs Words in directory Root, as user N if that is not 0, with the
// environment Env; the output comes back in hex.
func execCmd(o *op) result {
	runtime.LockOSThread() // the child dies with the thread that made it
	defer runtime.UnlockOSThread()
	for i := range o.Words {
		o.Words[i] = unhex(o.Words[i])
	}
	c := exec.Command(o.Words[0], o.Words[1:]...)
	c.Dir = unhex(o.Root)
	c.Env = o.Env
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if o.N != 0 {
		c.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(o.N), Gid: uint32(o.N)}
	}
	err := c.Run()
	if c.ProcessState == nil {
		return result{"ok": false, "err": errs(err), "rc": -1, "out": "", "stderr": ""}
	}
	return result{"ok": true, "err": "", "rc": c.ProcessState.ExitCode(), "out": hex.EncodeToString(so.Bytes()), "stderr": se.String()}
}
