# reductions: for loops over the bits, doubling instead of shifting
EDITS = [
('reductions.py', '''        recvobj = sendobj
        mask = 1

        while mask < size:
            if (mask & rank) != 0:
                target = (rank & ~mask) % size
                self.send(recvobj, dest=target, tag=tag)
            else:
                target = (rank | mask)
                if target < size:
                    tmp = self.recv(None, source=target, tag=tag)
                    recvobj = op(recvobj, tmp)
            mask <<= 1

        if root != 0:
            if rank == 0:
                self.send(recvobj, dest=root, tag=tag)
            elif rank == root:
                recvobj = self.recv(None, source=0, tag=tag)

        if rank != root:
            recvobj = None

        return recvobj
''', '''        total = sendobj
        mask = 1

        while mask < size:
            partner = rank ^ mask
            if rank & mask:
                self.send(total, dest=partner, tag=tag)
            elif partner < size:
                total = op(total, self.recv(None, source=partner, tag=tag))
            mask *= 2

        if root != 0:
            if rank == 0:
                self.send(total, dest=root, tag=tag)
            elif rank == root:
                total = self.recv(None, source=0, tag=tag)

        return total if rank == root else None
'''),
('reductions.py', '''        recvobj = self.reduce(sendobj, recvobj, op, 0)
        recvobj = self.bcast(recvobj, 0)
        return recvobj
''', '''        return self.bcast(self.reduce(sendobj, op=op))
'''),
]
