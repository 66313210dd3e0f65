exec(open('/tmp/bugs4.py').read().split("\nb('")[0])
MAINS=open('/repo/cmd/hangulize/main.go').read()
RD=MAINS[MAINS.index("		reader := bufio.NewReader(os.Stdin)"):MAINS.index("	} else {\n		for _, word := range args[1:]")]
b('scanner','C13',(C+'main.go',RD,'''		scanner := bufio.NewScanner(os.Stdin)
		for scanner.Scan() {
			if word := strings.TrimSpace(scanner.Text()); word != "" {
				ch <- word
			}
		}
'''))
b('scanner err','C13',(C+'main.go',RD,'''		scanner := bufio.NewScanner(os.Stdin)
		for scanner.Scan() {
			if word := strings.TrimSpace(scanner.Text()); word != "" {
				ch <- word
			}
		}
		if scanner.Err() != nil {
			panic(scanner.Err())
		}
'''))
b('readline','C13',(C+'main.go',RD,'''		reader := bufio.NewReader(os.Stdin)
		for {
			line, _, err := reader.ReadLine()
			if err != nil {
				break
			}
			if word := strings.TrimSpace(string(line)); word != "" {
				ch <- word
			}
		}
'''))
