module simh

go 1.24

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/sugarme/tokenizer v0.0.0
)

replace github.com/sugarme/tokenizer => /repo
