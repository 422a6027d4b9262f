'''plumbum.cli.terminal.prompt: asks again until the answer has the type; an empty answer is the default, if there is one.'''


class terminal(object):
    answers = []
    asked = []

    @staticmethod
    def prompt(question, type=str, default=NotImplemented, validator=lambda val: True):
        question = question.rstrip(' :')
        if default is not NotImplemented:
            question = '%s [%s]' % (question, default)
        question = question + ': '
        while len(terminal.answers):
            terminal.asked.append(question)
            ans = terminal.answers.pop(0)
            if not ans:
                if default is not NotImplemented:
                    return default
                continue
            try:
                value = type(ans)
            except (TypeError, ValueError):
                continue
            if validator(value):
                return value
        raise EOFError('no more answers')


def ask(*answers):
    terminal.answers = list(answers)
    terminal.asked = []
