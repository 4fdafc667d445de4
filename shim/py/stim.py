"""Stand-in for the two stim classes PyMatching's Python layer looks at: an error model is its text, and a
'circuit' is a wrapper around the text of the error model it stands for."""


class DetectorErrorModel:
    def __init__(self, text=""):
        self._text = text

    def __str__(self):
        return self._text


class Circuit:
    def __init__(self, text=""):
        self._text = text

    def detector_error_model(self, *, decompose_errors=False):
        if not decompose_errors:
            raise ValueError("a decomposed error model was expected")
        return DetectorErrorModel(self._text)

    def __str__(self):
        return self._text
