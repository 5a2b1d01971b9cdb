package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"syscall"
	"time"
	"unsafe"
)

// The GraphQL tool listens on a fixed port: it runs in a network of its own, with a helper that sends it the
// queries it reads, one a line, and writes the replies.
func graphqlHelper(tool, db string) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err == nil {
		var req [40]byte
		copy(req[:], "lo")
		syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCGIFFLAGS, uintptr(unsafe.Pointer(&req)))
		req[16] |= syscall.IFF_UP
		syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&req)))
	}
	cmd := exec.Command(tool, "-p", "-f", db)
	cmd.Stderr = os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	ended := make(chan error, 1)
	go func() { ended <- cmd.Wait() }()
	for i := 0; ; i++ {
		c, err := net.Dial("tcp", "127.0.0.1:8080")
		if err == nil {
			c.Close()
			break
		}
		select {
		case err := <-ended:
			fmt.Fprintln(os.Stderr, "the server ended:", err)
			os.Exit(4)
		case <-time.After(10 * time.Millisecond):
		}
		if i > 3000 {
			fmt.Fprintln(os.Stderr, "the server does not listen:", err)
			os.Exit(3)
		}
	}
	fmt.Println("ready")
	in := bufio.NewReader(os.Stdin)
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			cmd.Process.Kill()
			return
		}
		var query string
		json.Unmarshal([]byte(line), &query)
		client := http.Client{Timeout: 60 * time.Second}
		r, err := client.Get("http://127.0.0.1:8080/graphql?query=" + url.QueryEscape(query))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		b, _ := ioutil.ReadAll(r.Body)
		r.Body.Close()
		out, _ := json.Marshal(string(b))
		fmt.Println(string(out))
	}
}

type graphqlServer struct {
	cmd *exec.Cmd
	in  io.Writer
	out *bufio.Reader
}

// startGraphql starts the tool with its helper, in a network of its own if that can be had.
func startGraphql(tool, db string) (*graphqlServer, error) {
	for _, own := range []bool{true, false} {
		cmd := exec.Command(os.Args[0], "graphql", tool, db)
		cmd.Stderr = os.Stderr
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if own {
			cmd.SysProcAttr.Cloneflags = syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET
			cmd.SysProcAttr.UidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}}
			cmd.SysProcAttr.GidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}}
		}
		in, _ := cmd.StdinPipe()
		out, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			continue
		}
		s := &graphqlServer{cmd, in, bufio.NewReader(out)}
		line, err := s.out.ReadString('\n')
		if err == nil && line == "ready\n" {
			return s, nil
		}
		cmd.Wait()
	}
	return nil, fmt.Errorf("the server does not start")
}

func (s *graphqlServer) query(q string) (string, error) {
	b, _ := json.Marshal(q)
	if _, err := fmt.Fprintln(s.in, string(b)); err != nil {
		return "", err
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		return "", err
	}
	var r string
	return r, json.Unmarshal([]byte(line), &r)
}
