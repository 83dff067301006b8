"""A stand-in for the gstools package: covariance models with the interface
PyKrige reads."""
import types


class CovModel:
    def __init__(self, vario, field_dim=2, latlon=False, anis=(1, 1), angles=(0, 0, 0)):
        self.field_dim = field_dim
        self.dim = field_dim
        self.latlon = latlon
        self._vario = vario
        self.pykrige_anis, self.pykrige_angle = anis[0], angles[2]
        self.pykrige_anis_y, self.pykrige_anis_z = anis
        self.pykrige_angle_x, self.pykrige_angle_y, self.pykrige_angle_z = angles

    def pykrige_vario(self, args=None, r=0):
        return self._vario(r)

    @property
    def pykrige_kwargs(self):
        return {"variogram_model": "custom", "variogram_parameters": [], "variogram_function": self.pykrige_vario,
                "anisotropy_scaling": self.pykrige_anis, "anisotropy_angle": self.pykrige_angle,
                "anisotropy_scaling_y": self.pykrige_anis_y, "anisotropy_scaling_z": self.pykrige_anis_z,
                "anisotropy_angle_x": self.pykrige_angle_x, "anisotropy_angle_y": self.pykrige_angle_y, "anisotropy_angle_z": self.pykrige_angle_z}


def module(version):
    m = types.ModuleType("gstools")
    m.__version__ = version
    m.CovModel = CovModel
    return m
