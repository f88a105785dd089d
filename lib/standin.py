"""A model that can be saved with torch and remembers what it was given."""
import torch

seen = []


class Model(torch.nn.Module):
    def __init__(self, n, e, ea, f, v):
        super().__init__()
        self.w = torch.nn.Parameter(torch.ones(n, dtype=torch.float64))
        self.out = [e, ea, f, v]

    def forward(self, rc, tildeR, tildeR_deriv, list_neigh, natoms):
        seen.append((rc, tildeR, tildeR_deriv, list_neigh, natoms, self.training))
        return tuple(torch.as_tensor(x, dtype=torch.float64).clone().requires_grad_() * 1.0 for x in self.out)
