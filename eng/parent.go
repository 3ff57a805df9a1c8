package eng

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// Parent runs the check in a child process, so that a fatal error of the
// implementation (stack overflow, out of memory, concurrent map access, a
// hang) becomes a violation instead of ending the check without an answer.
func Parent(id, root string) int {
	scratch, err := os.MkdirTemp("", "vmc-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer os.RemoveAll(scratch)
	journal := filepath.Join(scratch, "journal")
	os.WriteFile(journal, make([]byte, slot*16), 0o600)
	work := filepath.Join(scratch, "work")
	os.Mkdir(work, 0o755)

	exe, _ := os.Executable()
	hard := 400 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		hard = 880 * time.Second
	}
	code, tail := runChild(exe, []string{"child", id}, hard, []string{"VMC_JOURNAL=" + journal, "VMC_SCRATCH=" + work})
	if code == 0 || code == 1 {
		return code
	}
	// The child did not finish. Which of the states it was working on is
	// responsible?
	j, _ := os.ReadFile(journal)
	rep := "fatal"
	switch code {
	case -2, exitHang:
		rep = "no answer"
	case exitMemory:
		rep = "out of proportion memory"
	}
	n := 0
	for w := 0; w < 16 && (w+1)*slot <= len(j); w++ {
		b := j[w*slot : (w+1)*slot]
		l := int(b[0]) | int(b[1])<<8 | int(b[2])<<16
		if b[3] == 0 || l == 0 {
			continue
		}
		st := string(b[8 : 8+l])
		one := filepath.Join(scratch, fmt.Sprintf("one-%d", w))
		os.WriteFile(one, []byte(st), 0o600)
		c2, tail2 := runChild(exe, []string{"child", id}, 30*time.Second, []string{"VMC_ONE=" + one, "VMC_SCRATCH=" + work})
		if c2 == 0 || c2 == 3 {
			continue
		}
		sp, s, _ := strings.Cut(st, "\x00")
		p := WriteReplay(root, id, sp, s, map[string]any{"property": id, "space": sp, "state": s,
			"what": fmt.Sprintf("the process ended abnormally (%s, exit %d) on this state", rep, c2), "tail": tail2})
		fmt.Printf("VIOLATION property=%s replay=%s\n    %s on %q\n    %s\n", id, p, rep, clip(s, 400), clip(tail2, 800))
		n++
	}
	if n == 0 {
		p := WriteReplay(root, id, "process", rep, map[string]any{"property": id,
			"what": fmt.Sprintf("the process running the conversions ended abnormally (exit %d)", code), "tail": tail})
		fmt.Printf("VIOLATION property=%s replay=%s\n    %s (exit %d)\n    %s\n", id, p, rep, code, clip(tail, 1500))
	}
	WriteEvidence(root, id, map[string]any{"property": id, "tier": tierName(), "seed": 1, "level": "model_checking",
		"coverage": map[string]any{"states": n, "transitions": n, "traces_validated_against_impl": n, "exhaustive": false,
			"samples": []string{"the exploration ended abnormally: " + rep}}, "wall_s": 0, "violations": max(n, 1)})
	return 1
}

func tierName() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func runChild(exe string, args []string, hard time.Duration, env []string) (int, string) {
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), env...)
	var tail tailBuf
	cmd.Stdout = os.Stdout
	cmd.Stderr = &tail
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return 3, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(hard):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return -2, tail.String()
	}
	return cmd.ProcessState.ExitCode(), tail.String()
}

type tailBuf struct{ head, b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.head) < 3000 {
		t.head = append(t.head, p...)
	} else {
		t.b = append(t.b, p...)
		if len(t.b) > 3000 {
			t.b = t.b[len(t.b)-3000:]
		}
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return string(t.head) + string(t.b) }

var _ io.Writer = (*tailBuf)(nil)
