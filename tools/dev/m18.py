M=[
('key3','C18',[('specs.go','spec, ok := specs[lang]','if len(lang) > 3 {\n\t\tlang = lang[:3]\n\t}\n\tspec, ok := specs[lang]')],1),
('cachefail','C18',[('specs.go','	if errors.Is(err, fs.ErrNotExist) {','	if errors.Is(err, fs.ErrNotExist) {\n\t\tspecs[lang] = nil')],1),
('lower','C18',[('specs.go','	delete(specs, lang)','	delete(specs, strings.ToLower(lang))')],1),
('unl','C18',[('specs.go','	delete(specs, lang)','	if len(specs) > 3 {\n\t\tdelete(specs, lang)\n\t}')],1),
('storelow','C18',[('specs.go','	specs[lang] = spec\n','	specs[spec.Lang.ID] = spec\n')],1),
('listc','C18',[('specs.go','	sort.Strings(langs)','	for l := range specs {\n\t\tlangs = append(langs, l)\n\t}\n	sort.Strings(langs)')],1),
('listcache','C18',[('specs.go','	sort.Strings(langs)','	all = langs\n	sort.Strings(langs)'),('specs.go','const ext','var all []string\nconst ext'),('specs.go','	var langs []string','	if all != nil { return all }\n	var langs []string')],1),
('helper','C18',[('specs.go','	spec, ok := specs[lang]\n','	spec, ok := getc(lang)\n'),('specs.go','const ext','func getc(k string) (*Spec, bool) {\n\ts := specs[k]\n\treturn s, s != nil\n}\n\nconst ext'),('specs.go','	hsl, err := f.ReadFile(filename)','	hsl, err := fs.ReadFile(f, fmt.Sprintf("specs/%s%s", lang, ext))\n\t_ = filename'),('specs.go','	delete(specs, lang)','	if _, ok := specs[lang]; ok {\n\t\tdelete(specs, lang)\n\t}')],0),
('dcl','C18',[('specs.go','	specs[lang] = spec\n','	if old, ok := specs[lang]; ok {\n\t\treturn old, nil\n\t}\n	specs[lang] = spec\n')],0),
('nokeep','C18',[('specs.go','	specs[lang] = spec\n','	for len(specs) > 10 {\n\t\tfor k := range specs {\n\t\t\tdelete(specs, k)\n\t\t\tbreak\n\t\t}\n\t}\n	specs[lang] = spec\n')],0),
]
