H='cmd/hangulize.wasm/hangulize.go'; T='cmd/hangulize.wasm/translit.go'; Y='cmd/cyrillic.translit.wasm/main.go'
M=[
('noret-load','C14',[(H,'''				throw(err)
				return
			}

			h :=''','''				throw(err)
			}

			h :=''')],1),
('noret-hang','C14',[(H,'''				throw(err)
				return
			}

			resolve''','''				throw(err)
			}

			resolve''')],1),
('swallow','C14',[(H,'''			if err != nil {
				throw(err)
				return
			}

			resolve''','''			if err != nil {
				return
			}

			resolve''')],1),
('resolve-on-err','C14',[(H,'''			if err != nil {
				throw(err)
				return
			}

			resolve''','''			if err != nil {
				resolve.Invoke(word)
				return
			}

			resolve''')],1),
('norecover','C14',[(H,'''			defer func() {
				if r := recover(); r != nil {
					throw(fmt.Errorf("%v", r))
				}
			}()
''','''			_ = fmt.Errorf
''')],1),
('recover-silent','C14',[(H,'''				if r := recover(); r != nil {
					throw(fmt.Errorf("%v", r))
				}
''','''				_ = fmt.Errorf
				_ = recover()
''')],1),
('recover-errors-only','C14',[(H,'''				if r := recover(); r != nil {
					throw(fmt.Errorf("%v", r))
				}
''','''				_ = fmt.Errorf
				if r, ok := recover().(error); ok {
					throw(r)
				}
''')],1),
('recover-late','C14',[(H,'''			// A JavaScript function may throw.
			defer func() {
				if r := recover(); r != nil {
					throw(fmt.Errorf("%v", r))
				}
			}()

			spec''','''			spec'''),(H,'''			resolve.Invoke(result)
''','''			defer func() {
				if r := recover(); r != nil {
					throw(fmt.Errorf("%v", r))
				}
			}()
			resolve.Invoke(result)
''')],1),
('norelease-exec','C14',[(H,'''		// A Promise calls its executor only once.
		defer executor.Release()
''','')],1),
('release-ok-only','C14',[(H,'''		// A Promise calls its executor only once.
		defer executor.Release()
''',''),(H,'''			resolve.Invoke(result)
''','''			resolve.Invoke(result)
			executor.Release()
''')],1),
('release-in-goroutine','C14',[(H,'''		// A Promise calls its executor only once.
		defer executor.Release()
''',''),(H,'''		go func() {
''','''		go func() {
			defer executor.Release()
''')],0),
('release-after-new','C14',[(H,'''		// A Promise calls its executor only once.
		defer executor.Release()
''',''),(H,'''	return js.Global().Get("Promise").New(executor)
''','''	promise := js.Global().Get("Promise").New(executor)
	executor.Release()
	return promise
''')],0),
('release-before-new','C14',[(H,'''	return js.Global().Get("Promise").New(executor)
''','''	executor.Release()
	return js.Global().Get("Promise").New(executor)
''')],1),
('resolve-word','C14',[(H,'resolve.Invoke(result)','_ = result\n			resolve.Invoke(word)')],1),
('resolve-empty','C14',[(H,'resolve.Invoke(result)','resolve.Invoke()'),(H,'result, err := h','_, err = h')],1),
('reject-result','C14',[(H,'resolve.Invoke(result)','reject.Invoke(result)'),(H,'resolve := args[0]','_ = args[0]')],1),
('swap-args','C14',[(H,'''	lang := args[0].String()
	word := args[1].String()
''','''	lang := args[1].String()
	word := args[0].String()
''')],1),
('blocking','C14',[(H,'''		go func() {
			// A''','''		func() {
			// A''')],1),
('early-return','C14',[(H,'''			h := hangulize.New(spec)
''','''			if word == "" {
				return
			}
			h := hangulize.New(spec)
''')],1),
('reject-empty','C14',[(H,'''			h := hangulize.New(spec)
''','''			if word == "" {
				reject.Invoke(word)
				return
			}
			h := hangulize.New(spec)
''')],1),
('refactor-struct','C14',[(H,'''		throw := func(err error) {
			reject.Invoke(js.Global().Get("Error").New(err.Error()))
		}
''','''		p := settler{resolve, reject}
		throw := p.throw
'''),(H,'''			resolve.Invoke(result)
''','''			p.ok(result)
'''),(H,'''var jsHangulize''','''type settler struct{ resolve, reject js.Value }

func (s settler) throw(err error) { s.reject.Invoke(js.Global().Get("Error").New(err.Error())) }
func (s settler) ok(v string)     { s.resolve.Invoke(v) }

var jsHangulize''')],0),
('refactor-helper','C14',[(H,'''		throw := func(err error) {
			reject.Invoke(js.Global().Get("Error").New(err.Error()))
		}
''',''),(H,'''				if r := recover(); r != nil {
					throw(fmt.Errorf("%v", r))
				}
			}()

			spec, err := hangulize.LoadSpec(lang)
			if err != nil {
				throw(err)
				return
			}

			h := hangulize.New(spec)
			for _, translit := range hangulize.Translits() {
				h.UseTranslit(translit)
			}

			if !traceFn.IsUndefined() {
				h.Trace(func(t hangulize.Trace) {
					traceFn.Invoke(jsTrace(t))
				})
			}

			result, err := h.Hangulize(word)
			if err != nil {
				throw(err)
				return
			}
''','''				if r := recover(); r != nil {
					rejectWith(reject, fmt.Errorf("%v", r))
				}
			}()

			result, err := work(lang, word, traceFn)
			if err != nil {
				rejectWith(reject, err)
				return
			}
'''),(H,'''var jsHangulize''','''func rejectWith(reject js.Value, err error) {
	reject.Invoke(js.Global().Get("Error").New(err.Error()))
}

func work(lang, word string, traceFn js.Value) (string, error) {
	spec, err := hangulize.LoadSpec(lang)
	if err != nil {
		return "", err
	}
	h := hangulize.New(spec)
	for _, translit := range hangulize.Translits() {
		h.UseTranslit(translit)
	}
	if !traceFn.IsUndefined() {
		h.Trace(func(t hangulize.Trace) {
			traceFn.Invoke(jsTrace(t))
		})
	}
	return h.Hangulize(word)
}

var jsHangulize''')],0),
('refactor-err-recover','C14',[(H,'''			defer func() {
				if r := recover(); r != nil {
					throw(fmt.Errorf("%v", r))
				}
			}()

			spec, err := hangulize.LoadSpec(lang)
			if err != nil {
				throw(err)
				return
			}

			h := hangulize.New(spec)
			for _, translit := range hangulize.Translits() {
				h.UseTranslit(translit)
			}

			if !traceFn.IsUndefined() {
				h.Trace(func(t hangulize.Trace) {
					traceFn.Invoke(jsTrace(t))
				})
			}

			result, err := h.Hangulize(word)
			if err != nil {
				throw(err)
				return
			}

			resolve.Invoke(result)
''','''			result, err := work(lang, word, traceFn)
			if err != nil {
				throw(err)
			} else {
				resolve.Invoke(result)
			}
'''),(H,'''var jsHangulize''','''func work(lang, word string, traceFn js.Value) (result string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	spec, err := hangulize.LoadSpec(lang)
	if err != nil {
		return "", err
	}
	h := hangulize.New(spec)
	for _, translit := range hangulize.Translits() {
		h.UseTranslit(translit)
	}
	if !traceFn.IsUndefined() {
		h.Trace(func(t hangulize.Trace) {
			traceFn.Invoke(jsTrace(t))
		})
	}
	return h.Hangulize(word)
}

var jsHangulize''')],0),
('bug-err-recover','C14',[(H,'''			defer func() {
				if r := recover(); r != nil {
					throw(fmt.Errorf("%v", r))
				}
			}()

			spec, err := hangulize.LoadSpec(lang)
			if err != nil {
				throw(err)
				return
			}

			h := hangulize.New(spec)
			for _, translit := range hangulize.Translits() {
				h.UseTranslit(translit)
			}

			if !traceFn.IsUndefined() {
				h.Trace(func(t hangulize.Trace) {
					traceFn.Invoke(jsTrace(t))
				})
			}

			result, err := h.Hangulize(word)
			if err != nil {
				throw(err)
				return
			}

			resolve.Invoke(result)
''','''			result, err := work(lang, word, traceFn)
			if err != nil {
				throw(err)
			} else {
				resolve.Invoke(result)
			}
'''),(H,'''var jsHangulize''','''func work(lang, word string, traceFn js.Value) (string, error) {
	var err error
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	spec, err := hangulize.LoadSpec(lang)
	if err != nil {
		return "", err
	}
	h := hangulize.New(spec)
	for _, translit := range hangulize.Translits() {
		h.UseTranslit(translit)
	}
	if !traceFn.IsUndefined() {
		h.Trace(func(t hangulize.Trace) {
			traceFn.Invoke(jsTrace(t))
		})
	}
	return h.Hangulize(word)
}

var jsHangulize''')],1),
('t-norelease','C14',[(T,'''	defer then.Release()
''','')],1),
('t-norelease-catch','C14',[(T,'''	defer catch.Release()
''','')],1),
('t-release-late','C14',[(T,'''	defer then.Release()
''',''),(T,'''	case result := <-thenCh:
''','''	case result := <-thenCh:
		then.Release()
''')],1),
('t-release-panic','C14',[(T,'''	defer then.Release()
''',''),(T,'''	defer catch.Release()
''',''),(T,'''	select {
''','''	defer then.Release()
	defer catch.Release()
	select {
''')],1),
('t-release-early','C14',[(T,'''	defer then.Release()
''',''),(T,'''	select {
''','''	then.Release()
	select {
''')],1),
('t-nocatch','C14',[(T,'.Call("catch", catch)','')],1),
('t-both-then','C14',[(T,'.Call("then", then).Call("catch", catch)','.Call("then", then, catch)')],0),
('t-catch-first','C14',[(T,'.Call("then", then).Call("catch", catch)','.Call("catch", catch).Call("then", then)')],0),
('t-swap','C14',[(T,'.Call("then", then).Call("catch", catch)','.Call("then", catch, then)')],1),
('t-catch-nosend','C14',[(T,'''		catchCh <- err
''','''		if err.Error() == "" {
			return nil
		}
		catchCh <- err
''')],1),
('t-twice','C14',[(T,'''		thenCh <- result
''','''		thenCh <- result
		thenCh <- result
''')],1),
('t-one-recv','C14',[(T,'''	select {
	case result := <-thenCh:
		return result, nil
	case err := <-catchCh:
		return "", err
	}
''','''	return <-thenCh, nil
''')],1),
('t-seq','C14',[(T,'''	select {
	case result := <-thenCh:
		return result, nil
	case err := <-catchCh:
		return "", err
	}
''','''	result := <-thenCh
	return result, <-catchCh
''')],1),
('t-reject-nil','C14',[(T,'''	case err := <-catchCh:
		return "", err
''','''	case <-catchCh:
		return word, nil
''')],1),
('t-single-chan','C14',[(T,'''	thenCh := make(chan string)
	defer close(thenCh)

	catchCh := make(chan error)
	defer close(catchCh)
''','''	type outcome struct {
		s   string
		err error
	}
	ch := make(chan outcome, 1)
'''),(T,'''		thenCh <- result
''','''		ch <- outcome{s: result}
'''),(T,'''		catchCh <- err
''','''		ch <- outcome{err: err}
'''),(T,'''	select {
	case result := <-thenCh:
		return result, nil
	case err := <-catchCh:
		return "", err
	}
''','''	o := <-ch
	return o.s, o.err
''')],0),
('t-helper','C14',[(T,'''	then := js.FuncOf(func(this js.Value, args []js.Value) any {
		result := args[0].String()
		thenCh <- result
		return nil
	})
	defer then.Release()
''','''	then := callback(func(v js.Value) { thenCh <- v.String() })
	defer then.Release()
'''),(T,'''	catch := js.FuncOf(func(this js.Value, args []js.Value) any {
		err := errors.New(jsErrorMessage(args[0]))
		catchCh <- err
		return nil
	})
''','''	catch := callback(func(v js.Value) { catchCh <- errors.New(jsErrorMessage(v)) })
'''),(T,'''func (t promiseTranslit) Load''','''func callback(f func(js.Value)) js.Func {
	return js.FuncOf(func(this js.Value, args []js.Value) any {
		f(args[0])
		return nil
	})
}

func (t promiseTranslit) Load''')],0),
('t-release-helper','C14',[(T,'''	defer then.Release()
''',''),(T,'''	defer catch.Release()
''','''	defer func() {
		then.Release()
		catch.Release()
	}()
''')],0),
('t-self-release','C14',[(T,'''	defer then.Release()
''',''),(T,'''	defer catch.Release()
''',''),(T,'''		thenCh <- result
''','''		then.Release()
		thenCh <- result
'''),(T,'''		catchCh <- err
''','''		catch.Release()
		catchCh <- err
'''),(T,'	then := js','	var then, catch js.Func\n	then = js'),(T,'	catch := js','	catch = js')],1),
('t-get','C14',[(T,'js.Global().Get("Reflect").Call("get", v, "message")','v.Get("message")')],1),
('t-norecover-msg','C14',[(T,'''		if recover() != nil {
			msg = "unknown error"
		}
''','''		msg += ""
''')],1),
('y-nocheck','C14',[(Y,'''	t, ok := translits[scheme]
	if !ok {
		return js.Global().Get("Error").New("unknown scheme: " + scheme)
	}
''','''	t := translits[scheme]
''')],1),
('y-nilcheck','C14',[(Y,'''	t, ok := translits[scheme]
	if !ok {
''','''	t := translits[scheme]
	if t == nil {
''')],0),
('percall-func','C14',[(H,'''	return js.Global().Get("Promise").New(executor)
''','''	js.Global().Set("lastCall", js.FuncOf(func(this js.Value, args []js.Value) any { return lang }))
	return js.Global().Get("Promise").New(executor)
''')],0),
('percall-finally','C14',[(H,'''	return js.Global().Get("Promise").New(executor)
''','''	return js.Global().Get("Promise").New(executor).Call("finally", js.FuncOf(func(this js.Value, args []js.Value) any { return nil }))
''')],1),
('async-trace','C14',[(H,"""					traceFn.Invoke(jsTrace(t))""","""					go traceFn.Invoke(jsTrace(t))""")],1),
('nop','C14',[(H,"""	lang := args""","""	_ = len(args)
	lang := args"""),(T,"""	thenCh := make""","""	_ = word
	thenCh := make""")],0),
('goroutine-named','C14',[(H,"""		go func() {
			// A""","""		work := func() {
			// A"""),(H,"""			resolve.Invoke(result)
		}()
""","""			resolve.Invoke(result)
		}
		go work()
""")],0),
('reorder','C14',[(H,"""		resolve := args[0]
		reject := args[1]
""","""		reject, resolve := args[1], args[0]
""")],0),
('executor-after','C14',[(H,"""		resolve := args[0]
		reject := args[1]
""","""		resolve := args[1]
		reject := args[0]
""")],1),
]
