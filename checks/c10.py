import queues


class Check:
    pid = 'C10'
    title = 'The announcement queues deliver every accepted record once, in order'
    parts = ['core']
    drivers = ['d_queue']
    quick, thorough = 3000, 60000
    rule = ('a case is a history of sends, receives and reopenings, or a run of concurrent senders and receivers; it counts '
            'as non-trivial when two records waited at once before one was taken, or when threads were used')
    assumptions = ['a record has at most the length the queue was created with',
                   'the queue has the memory its records need']

    def gen(self, src):
        return queues.gen(src, False)

    def run(self, case, ctx):
        return queues.run(case, ctx)
