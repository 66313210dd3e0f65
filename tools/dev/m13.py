M=[]
MA='cmd/hangulize/main.go'; D='cmd/hangulize/dev.go'; T='cmd/hangulize/test.go'
def m(n,ed,rc=1,c='C13'): M.append((n,c,ed,rc))
m('exit 0',[(MA,'			cmd.PrintErrln(err)\n			os.Exit(1)','			cmd.PrintErrln(err)\n			os.Exit(0)')])
m('no exit',[(MA,'			cmd.PrintErrln(err)\n			os.Exit(1)\n			return','			cmd.PrintErrln(err)\n			return')])
m('continue on error',[(MA,'			cmd.PrintErrln(err)\n			os.Exit(1)\n			return','			cmd.PrintErrln(err)\n			continue')])
m('silent exit',[(MA,'			cmd.PrintErrln(err)\n			os.Exit(1)','			os.Exit(1)')])
m('unknown lang exit0',[(MA,'			cmd.Println("Lang not supported:", lang)\n			os.Exit(1)','			cmd.Println("Lang not supported:", lang)\n			return')])
m('main no exit',[(MA,'		fmt.Fprintln(os.Stderr, err)\n		os.Exit(1)','		fmt.Fprintln(os.Stderr, err)')])
m('drop last line',[(MA,'''			// The last line may not end with a newline.
			word = strings.TrimSpace(word)
			if word != "" {
				ch <- word
			}

			if err != nil {
				break
			}
''','''			if err != nil {
				break
			}
			word = strings.TrimSpace(word)
			if word != "" {
				ch <- word
			}
''')])
m('drop last line on eof only if short',[(MA,'			if word != "" {\n				ch <- word\n			}\n\n			if err','			if word != "" && (err == nil || len(word) > 1) {\n				ch <- word\n			}\n\n			if err')])
m('lower',[(MA,'word = strings.TrimSpace(word)','word = strings.ToLower(strings.TrimSpace(word))')])
m('first field',[(MA,'word = strings.TrimSpace(word)','word = strings.TrimSpace(word)\n			if f := strings.Fields(word); len(f) > 0 {\n				word = f[0]\n			}')])
m('blank stops',[(MA,'			if word != "" {\n				ch <- word\n			}\n\n			if err','			if word == "" {\n				break\n			}\n			ch <- word\n\n			if err')])
m('comment lines',[(MA,'			if word != "" {\n				ch <- word\n			}\n\n			if err','			if word != "" && !strings.HasPrefix(word, "#") {\n				ch <- word\n			}\n\n			if err')])
m('args from 2',[(MA,'range args[1:]','range args[2:]'),(MA,'len(args) == 1','len(args) <= 2')])
m('args reversed',[(MA,'''		for _, word := range args[1:] {
			if word''','''		for i := len(args) - 1; i >= 1; i-- {
			word := args[i]
			if word''')])
m('args last dropped',[(MA,'range args[1:]','range args[1:len(args)-1]')])
m('args index ok',[(MA,'''		for _, word := range args[1:] {
			if word''','''		for i := 1; i < len(args); i++ {
			word := args[i]
			if word''')],0)
m('args index twice ok',[(MA,'''		for _, word := range args[1:] {
			if word != "" {
				ch <- word
			}''','''		for i := 1; i < len(args); i++ {
			if args[i] != "" {
				ch <- args[i]
			}''')],0)
m('args dup skip',[(MA,'''		for _, word := range args[1:] {
			if word != "" {''','''		seen := map[string]bool{}
		for _, word := range args[1:] {
			if seen[word] {
				continue
			}
			seen[word] = true
			if word != "" {''')])
m('args break',[(MA,'''		for _, word := range args[1:] {
			if word != "" {
				ch <- word
			}''','''		for _, word := range args[1:] {
			if word == "" {
				break
			}
			ch <- word''')])
m('args break dash',[(MA,'''		for _, word := range args[1:] {
			if word''','''		for _, word := range args[1:] {
			if word == "-" {
				break
			}
			if word''')])
m('no close',[(MA,'	defer close(ch)\n','')])
m('close args only',[(MA,'	defer close(ch)\n',''),(MA,'				ch <- word\n			}\n		}\n	}','				ch <- word\n			}\n		}\n		close(ch)\n	}')])
m('close early',[(MA,'	defer close(ch)\n','	close(ch)\n')])
m('close end ok',[(MA,'	defer close(ch)\n',''),(MA,'				ch <- word\n			}\n		}\n	}','				ch <- word\n			}\n		}\n	}\n	close(ch)')],0)
m('print to stderr',[(MA,'fmt.Fprintln(cmd.OutOrStdout(), result)','cmd.Println(result)')])
m('print without newline',[(MA,'fmt.Fprintln(cmd.OutOrStdout(), result)','fmt.Fprint(cmd.OutOrStdout(), result)')])
m('printf ok',[(MA,'fmt.Fprintln(cmd.OutOrStdout(), result)','fmt.Fprintf(cmd.OutOrStdout(), "%s\\n", result)')],0)
m('print stdout ok',[(MA,'fmt.Fprintln(cmd.OutOrStdout(), result)','fmt.Println(result)')],0)
m('print concat ok',[(MA,'fmt.Fprintln(cmd.OutOrStdout(), result)','fmt.Fprint(cmd.OutOrStdout(), result+"\\n")')],0)
m('print if nonempty',[(MA,'		fmt.Fprintln(cmd.OutOrStdout(), result)','		if result != "" {\n			fmt.Fprintln(cmd.OutOrStdout(), result)\n		}')])
m('print if not verbose',[(MA,'		fmt.Fprintln(cmd.OutOrStdout(), result)','		if !verbose {\n			fmt.Fprintln(cmd.OutOrStdout(), result)\n		}')])
m('print word',[(MA,'fmt.Fprintln(cmd.OutOrStdout(), result)','fmt.Fprintln(cmd.OutOrStdout(), word); _ = result')])
m('print twice verbose',[(MA,'		fmt.Fprintln(cmd.OutOrStdout(), result)','		fmt.Fprintln(cmd.OutOrStdout(), result)\n		if verbose {\n			fmt.Fprintln(cmd.OutOrStdout(), result)\n		}')])
m('buffered',[(MA,'	for word := range ch {','	out := bufio.NewWriter(cmd.OutOrStdout())\n	defer out.Flush()\n	for word := range ch {'),(MA,'fmt.Fprintln(cmd.OutOrStdout(), result)','fmt.Fprintln(out, result)')])
m('buffered flushed ok',[(MA,'	for word := range ch {','	out := bufio.NewWriter(cmd.OutOrStdout())\n	for word := range ch {'),(MA,'fmt.Fprintln(cmd.OutOrStdout(), result)','fmt.Fprintln(out, result)\n		out.Flush()')],0)
m('stop after first',[(MA,'		fmt.Fprintln(cmd.OutOrStdout(), result)','		fmt.Fprintln(cmd.OutOrStdout(), result)\n		if !verbose && result == word {\n			return\n		}')])
m('no install',[(MA,'		translit.Install(h)\n',''),(MA,'	"github.com/hangulize/hangulize/translit"\n','')])
m('no install dev',[(D,'		translit.Install(h)\n',''),(D,'	"github.com/hangulize/hangulize/translit"\n','')])
m('no install test if cover',[(T,'			translit.Install(h)\n','			if testCover {\n				translit.Install(h)\n			}\n')])
m('install late',[(D,'		translit.Install(h)\n		hangulizeStream(cmd, args, h)\n','		hangulizeStream(cmd, args, h)\n		translit.Install(h)\n')])
m('install other',[(D,'		translit.Install(h)\n','		translit.Install(hangulize.New(spec))\n')])
m('dev parse err nil',[(D,'''		spec, err := hangulize.ParseSpec(file)
		if err != nil {
			return err
		}''','''		spec, err := hangulize.ParseSpec(file)
		if err != nil {
			cmd.PrintErrln(err)
			return nil
		}''')])
m('dev open ignored',[(D,'''		if err != nil {
			return err
		}

		// Parse''','''		if os.IsPermission(err) {
			return err
		}

		// Parse''')])
m('test open continue',[(T,'''			file, err := os.Open(name)
			if err != nil {
				return err
			}''','''			file, err := os.Open(name)
			if err != nil {
				cmd.PrintErrln(err)
				continue
			}''')])
m('test parse continue',[(T,'''			spec, err := hangulize.ParseSpec(file)
			if err != nil {
				return err
			}''','''			spec, err := hangulize.ParseSpec(file)
			if err != nil {
				cmd.PrintErrln(err)
				continue
			}''')])
m('test parse continue marked ok',[(T,'''			spec, err := hangulize.ParseSpec(file)
			if err != nil {
				return err
			}''','''			spec, err := hangulize.ParseSpec(file)
			if err != nil {
				cmd.PrintErrln(err)
				failedAtLeastOnce = true
				continue
			}''')],0)
m('test flag reset',[(T,'			// Remember the name.','			failedAtLeastOnce = false\n			// Remember the name.')])
m('test flag not set on cover',[(T,'				failedAtLeastOnce = true','				failedAtLeastOnce = !testCover')])
m('test err ignored',[(T,'if err == nil && result == expected','if result == expected')])
m('test exit 0',[(T,'		if failedAtLeastOnce {\n			os.Exit(1)','		if failedAtLeastOnce {\n			os.Exit(0)')])
m('test return err ok',[(T,'		if failedAtLeastOnce {\n			os.Exit(1)\n		}','		if failedAtLeastOnce {\n			return os.ErrInvalid\n		}')],0)
m('test skip first',[(T,'range spec.Test {','range spec.Test[1:] {')])
m('test skip short',[(T,'				word, expected = exm[0], exm[1]\n','				word, expected = exm[0], exm[1]\n				if len(word) < 2 {\n					continue\n				}\n')])
m('test break',[(T,'				failedAtLeastOnce = true\n','				failedAtLeastOnce = true\n				break\n')],0)
m('test files from 1',[(T,'range args {','range args[1:] {')])
m('test not compared when cover',[(T,'if err == nil && result == expected {','if err == nil && (testCover || result == expected) {')])
m('test fold',[(T,'if err == nil && result == expected {','if err == nil && strings.EqualFold(result, expected) {'),(T,'	"os"\n','	"os"\n	"strings"\n')])
m('test exit before',[(T,'		// Exit with 1 if failed at least once.\n		if failedAtLeastOnce {','		// Exit with 1 if failed at least once.\n		if failedAtLeastOnce && !testCover {')])
m('helper ok',[(T,'				if err == nil && result == expected {\n					continue\n				}','				if passed(result, expected, err) {\n					continue\n				}'),(T,'var testCover bool','func passed(got, want string, err error) bool { return err == nil && got == want }\n\nvar testCover bool')],0)
m('install helper ok',[(MA,'		h := hangulize.New(spec)\n		translit.Install(h)\n','		h := ready(spec)\n'),(MA,'var verbose bool','func ready(s *hangulize.Spec) hangulize.Hangulizer {\n	h := hangulize.New(s)\n	translit.Install(h)\n	return h\n}\n\nvar verbose bool')],0)
m('goroutine closure ok',[(MA,'	go readWords(ch, args)\n','	go func() {\n		readWords(ch, args)\n	}()\n')],0)
m('callback ok',[(MA,'''	ch := make(chan string)
	go readWords(ch, args)

	for word := range ch {
''','''	readWords(args, func(word string) {
'''),(MA,'''		fmt.Fprintln(cmd.OutOrStdout(), result)
	}
}''','''		fmt.Fprintln(cmd.OutOrStdout(), result)
	})
}'''),(MA,'func readWords(ch chan<- string, args []string) {\n	defer close(ch)\n','func readWords(args []string, emit func(string)) {'),(MA,'ch <- word','emit(word)'),(MA,'ch <- word','emit(word)')],0)
m('slice ok',[(MA,'''	ch := make(chan string)
	go readWords(ch, args)

	for word := range ch {
''','''	for _, word := range readWords(args) {
'''),(MA,'func readWords(ch chan<- string, args []string) {\n	defer close(ch)\n','func readWords(args []string) (ws []string) {'),(MA,'ch <- word','ws = append(ws, word)'),(MA,'ch <- word','ws = append(ws, word)'),(MA,'				ws = append(ws, word)\n			}\n		}\n	}\n','				ws = append(ws, word)\n			}\n		}\n	}\n	return ws\n')],0)
m('scanner',[(MA,'''		reader := bufio.NewReader(os.Stdin)
		for {
			word, err := reader.ReadString('\\n')

			// The last line may not end with a newline.
			word = strings.TrimSpace(word)
			if word != "" {
				ch <- word
			}

			if err != nil {
				break
			}
		}''','''		sc := bufio.NewScanner(os.Stdin)
		for sc.Scan() {
			word := strings.TrimSpace(sc.Text())
			if word != "" {
				ch <- word
			}
		}''')])
m('parallel',[(MA,'''		result, err = h.Hangulize(word)
		if err != nil {
			cmd.PrintErrln(err)
			os.Exit(1)
			return
		}

		tracefmt.FprintTraces(cmd.OutOrStderr(), traces)
		fmt.Fprintln(cmd.OutOrStdout(), result)
''','''		word := word
		go func() {
			result, err = h.Hangulize(word)
			if err != nil {
				cmd.PrintErrln(err)
				os.Exit(1)
				return
			}

			tracefmt.FprintTraces(cmd.OutOrStderr(), traces)
			fmt.Fprintln(cmd.OutOrStdout(), result)
		}()
''')])
m('blank helper ok',[(MA,'			if word != "" {\n				ch <- word\n			}\n\n			if err','			if !blank(word) {\n				ch <- word\n			}\n\n			if err'),(MA,'var verbose bool','func blank(s string) bool { return len(strings.TrimSpace(s)) == 0 }\n\nvar verbose bool')],0)

m('mode wrong',[(MA,'len(args) == 1','len(args) <= 2')])
m('mode dash',[(MA,'if len(args) == 1 {','if len(args) == 1 || args[1] == "-" {')])
m('mode le ok',[(MA,'len(args) == 1','len(args) < 2')],0)
m('mode swap ok',[(MA,'	if len(args) == 1 {\n','	words := args[1:]\n	if len(words) == 0 {\n'),(MA,'range args[1:]','range words')],0)
m('mode early return ok',[(MA,'	if len(args) == 1 {\n','	if len(args) > 1 {\n		for _, w := range args[1:] {\n			if w != "" {\n				ch <- w\n			}\n		}\n		return\n	}\n	if true {\n'),(MA,"""	} else {
		for _, word := range args[1:] {
			if word != "" {
				ch <- word
			}
		}
	}
""","	}\n")],0)
