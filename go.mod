module vmc

go 1.25.0

require (
	github.com/JohannesKaufmann/dom v0.3.1
	github.com/JohannesKaufmann/html-to-markdown/v2 v2.0.0
	github.com/andybalholm/cascadia v1.3.4
	github.com/yuin/goldmark v1.8.2
	golang.org/x/net v0.55.0
)

require (
	github.com/agnivade/levenshtein v1.2.1 // indirect
	github.com/aymanbagabas/go-osc52/v2 v2.0.1 // indirect
	github.com/bmatcuk/doublestar/v4 v4.10.0 // indirect
	github.com/lucasb-eyer/go-colorful v1.4.0 // indirect
	github.com/mattn/go-isatty v0.0.22 // indirect
	github.com/muesli/termenv v0.16.0 // indirect
	github.com/rivo/uniseg v0.4.7 // indirect
	golang.org/x/sys v0.45.0 // indirect
)

replace github.com/JohannesKaufmann/html-to-markdown/v2 => /repo
