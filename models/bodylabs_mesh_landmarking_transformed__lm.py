'''bodylabs' landmarks: moved by the offsets of one set of vertices from another. What they are made from is kept.'''
import chumpy as ch


class TransformedCoeffs(ch.Ch):
    dterms = ['src_v', 'dst_v']

    def compute_r(self):
        return self.dst_v.r - self.src_v.r

    def compute_dr_wrt(self, wrt):
        return None


class TransformedLms(ch.Ch):
    dterms = ['transformed_coeffs', 'src_v']

    def compute_r(self):
        return self.src_v.r + self.transformed_coeffs.r

    def compute_dr_wrt(self, wrt):
        return None
