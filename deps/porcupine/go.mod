module github.com/anishathalye/porcupine

go 1.16
